"""ctypes control of the simulation runtime linked into the instrumented extension."""
import ctypes
import os

rt = None
HOOK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)


def load():
    global rt
    p = os.path.join(os.environ["VERIF_STAGE"], "tfc", "utils", "libsimrt.so")
    if rt is None and os.path.exists(p):
        rt = ctypes.CDLL(p)
    return rt


def error():
    if rt is None:
        return None
    b = ctypes.create_string_buffer(600)
    return b.value.decode() if rt.sim_error(b, 600) else None


def begin_run():
    if rt is not None:
        rt.sim_clear_error()


def stats():
    o = (ctypes.c_uint64 * 16)()
    rt.sim_stats(o)
    k = (
        "steps to_host to_fiber hooks fibers blocked max_active trace errors allocs frees failed alloc_window accesses "
        "fns plan_pos"
    ).split()
    return dict(zip(k, o))
