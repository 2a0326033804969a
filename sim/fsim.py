"""Python side of the simulated disk (sim/native/fsrt.c, preloaded into the worker)."""
import ctypes
import errno
import os

OPS = {"open": 0, "write": 1, "close": 2, "mkdir": 3, "unlink": 4, "rename": 5, "sync": 6, "read": 7}
ACTS = {"err": 0, "sticky": 1, "short": 2, "pre": 3}
ERR = {n: getattr(errno, n) for n in ("EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "EMFILE", "EINTR", "ENOENT", "EEXIST", "ENOTDIR")}


class Fault(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("nth", ctypes.c_int), ("act", ctypes.c_int), ("err", ctypes.c_int), ("arg", ctypes.c_long)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VERIF_FSRT"])
        _lib.fs_log.restype = ctypes.c_char_p
        _lib.fs_written.restype = ctypes.c_long
        _lib.fs_arm.argtypes = [ctypes.c_char_p, ctypes.POINTER(Fault), ctypes.c_int, ctypes.c_long]
        # make sure the calls of this process really go through it
        p = os.path.join(os.environ["VERIF_SCRATCH"], "probe")
        with Disk(os.environ["VERIF_SCRATCH"], []) as d:
            with open(p, "w") as f:
                f.write("x")
        os.remove(p)
        if "write /probe 1 0" not in d.log:
            raise RuntimeError("file system calls are not intercepted: " + repr(d.log))
    return _lib


class Disk:
    """Faults [[op, nth, act, errname, arg], ...] apply to calls below root while the context is active."""

    def __init__(self, root, faults, budget=None):
        self.root, self.faults, self.budget = root, faults, budget
        self.fired, self.log, self.counts = 0, "", {}

    def __enter__(self):
        L = lib() if _lib is None else _lib
        a = (Fault * max(1, len(self.faults)))()
        for k, (op, nth, act, err, arg) in enumerate(self.faults):
            a[k] = Fault(OPS[op], nth, ACTS[act], ERR.get(err, 0), arg)
        L.fs_arm(self.root.encode(), a, len(self.faults), -1 if self.budget is None else self.budget)
        return self

    def __exit__(self, *a):
        self.fired = _lib.fs_disarm()
        self.log = _lib.fs_log().decode(errors="replace")
        self.counts = {o: _lib.fs_count(i) for o, i in OPS.items()}
        return False
