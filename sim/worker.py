"""Worker process: runs simulated executions of one property, one after another, reporting on fd 3.

argv: property tier mode ...
  gen  seed start count      scenarios are generated from (property, seed, index)
  file path                  scenarios are read from a JSON file (list), the verdict of each is reported
"""
import faulthandler
import hashlib
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback


def rng_for(prop, seed, idx):
    h = hashlib.sha256(f"{prop}:{seed}:{idx}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def main():
    out = os.fdopen(3, "w", buffering=1)
    prop, tier, mode = sys.argv[1:4]
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import ctypes

    ctypes.CDLL(None).prctl(1, 9)  # ends with its parent, also when that is killed
    # everything the code under test prints goes nowhere, except through the seams a property installs
    sys.stdout = open(os.devnull, "w")
    mod = importlib.import_module("sim.props." + prop)

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    if mode == "gen":
        seed, start, count = sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
        todo = ((i, None) for i in range(start, start + count))
    else:
        with open(sys.argv[4]) as f:
            todo = enumerate(json.load(f))
        seed = None
    try:
        if hasattr(mod, "setup"):
            mod.setup()
    except BaseException:
        emit({"setup_error": traceback.format_exc()})
        return 0
    emit({"ready": 1})
    for idx, sc in todo:
        if sc is None:
            sc = mod.gen(rng_for(prop, seed, idx), tier)
        emit({"start": idx})
        t = time.monotonic()
        try:
            v, st = mod.run(sc)
            emit({"done": idx, "v": v, "st": st, "t": round(time.monotonic() - t, 4)})
        except (Exception, SystemExit) as e:
            if isinstance(e, MemoryError):
                emit({"done": idx, "err": traceback.format_exc(), "t": 0})
                continue
            # an operation that no scenario expects to fail raised
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/tfc/" in f.filename), "")
            msg = f"a run raised {type(e).__name__}: {str(e)[:500]}" + (f" in {at}" if at else "")
            v = {"class": "exception", "msg": msg}
            st = {"counters": {}, "digest": hashlib.sha256(msg.encode()).hexdigest()[:20], "sig": None, "sample": None}
            emit({"done": idx, "v": v, "st": st, "t": round(time.monotonic() - t, 4)})
        except BaseException:
            emit({"done": idx, "err": traceback.format_exc(), "t": 0})
    emit({"end": 1})
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
