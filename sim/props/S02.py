"""S02: compiled evaluations are safe against everything other threads do to the library meanwhile."""
import json

from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "sim"
BATCH = 8
RUN_TIMEOUT = 60
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 960, "seconds": 90, "recheck": 3},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 12, "minimise_s": 200},
}
RULE = (
    "A case is a set of 1-3 compiled C++ problem objects (all 8 bases, 1-3 dimensions) and 2-6 sessions. In a session one "
    "compiled evaluation runs on a simulated native thread and is preempted at seeded memory accesses; at every preemption "
    "the simulated interpreter thread performs seeded operations (create objects until the registry reallocates, run other "
    "compiled evaluations that are preempted in turn, assign or read weights, evaluate eagerly, build whole problems, drop and "
    "collect), themselves preempted back. Non-trivial: at least one preemption at which another operation ran to completion "
    "or blocked; distinct by the native schedule trace."
)
MEASURE = "hash of the native schedule trace (switches with their step numbers, lock waits) and of all result bytes"
REAL = ["tfc.utils.BF (C++, instrumented build)", "tfc.utfc", "tfc.mtfc", "jax tracing", "XLA CPU custom calls"]
STUB = [
    "native threads (fibers on one thread, switched at every memory access by the plan)",
    "native locks, malloc/free and operator new/delete (simulated, with red zones and quarantine)",
]
ASSUMPTIONS = [
    "sequentially consistent interleaving at the granularity of instrumented accesses; weak-memory effects are not simulated",
    "operations that hold the interpreter lock do not overlap each other",
]


def gen(rng, tier):
    from .. import objs

    n = rng.choice([1, 2, 2, 3])
    cfgs = [objs.gen_cfg(rng, backend="C++", small=True, elm=rng.random() < 0.55) for _ in range(n)]
    if rng.random() < 0.3:
        cfgs.append(json.loads(json.dumps(cfgs[0])))
        if cfgs[0]["basis"] in objs.ELM:
            objs.seedw(rng, cfgs[-1], cfgs[-1]["kind"])
    fns = []
    for i, c in enumerate(cfgs):
        for _ in range(rng.choice([1, 2])):
            fns.append([i, rng.choice(objs.derivs(c)), rng.random() < 0.35, [rnd(rng, 0, 1) for _ in range(rng.choice([1, 3, 4]))]])

    def setw(i):
        m = cfgs[i]["deg"] + 1
        if rng.random() < 0.5:
            return ["setw", i, [rnd(rng, -2, 2) for _ in range(m * cfgs[i]["kind"])]]
        return ["setb", i, [rnd(rng, -2, 2) for _ in range(m)]]

    elms = [i for i, c in enumerate(cfgs) if c["basis"] in objs.ELM]
    style = rng.choice(["mixed", "mixed", "grow", "eval", "weights" if elms else "eval"])

    def hop():
        r = rng.random()
        if style == "grow" and r < 0.6:
            return ["grow", rng.choice(["CP", "LeP", "FS", "ELMTanh", "nCP", "nLeP", "nELMTanh"])]
        if style == "eval" and r < 0.75:
            return ["eval", rng.randrange(len(fns))]
        if style == "weights" and r < 0.6:
            return setw(rng.choice(elms))
        r = rng.random()
        if r < 0.25:
            return ["grow", rng.choice(["CP", "LeP", "FS", "ELMTanh", "nCP", "nLeP", "nELMTanh"])]
        if r < 0.55:
            return ["eval", rng.randrange(len(fns))]
        if r < 0.75 and elms:
            return setw(rng.choice(elms))
        if r < 0.80 and elms:
            return ["getw", rng.choice(elms)]
        if r < 0.90:
            return ["eager", rng.randrange(len(fns))]
        if r < 0.92:
            return ["new", rng.randrange(len(cfgs))]
        if r < 0.95:
            return ["tmp"]
        if r < 0.97:
            return ["gc"]
        return ["none"]

    def gap():
        return rng.choice([rng.randint(0, 8), rng.randint(0, 40), rng.randint(0, 200), int(2 ** rng.uniform(0, 11))])

    ses = []
    for _ in range(rng.randint(2, 6)):
        if elms and rng.random() < 0.45:
            # an evaluation held up early, an assignment to its object held up in turn, the evaluation running on
            i = rng.choice(elms)
            mine = [k for k in range(len(fns)) if fns[k][0] == i]
            early = [rng.choice([rng.randint(0, 8), rng.randint(0, 8), rng.randint(0, 60)]), rng.randint(0, 5)]
            amid = [rng.choice([rng.randint(0, 40), rng.randint(30, 110), rng.randint(30, 110), rng.randint(30, 400)]), rng.randint(0, 5)]
            on = [rng.choice([4000, 4000, rng.randint(0, 300)]), rng.randint(0, 5)]
            ses.append({"fn": rng.choice(mine), "plan": [early, amid, on, [rng.randint(0, 120), rng.randint(0, 5)]], "ops": [setw(i), setw(i), hop()]})
            continue
        k = rng.choice([2, 4, 8, 16])
        ses.append({"fn": rng.randrange(len(fns)), "plan": [[gap(), rng.randint(0, 5)] for _ in range(k)], "ops": [hop() for _ in range(k)]})
    return {"cfgs": cfgs, "fns": fns, "sessions": ses}


def shrink(sc):
    for c in drop_each(sc["sessions"], 1):
        yield dict(sc, sessions=c)
    for k, s in enumerate(sc["sessions"]):
        for c in drop_each(s["plan"]):
            yield dict(sc, sessions=sc["sessions"][:k] + [dict(s, plan=c)] + sc["sessions"][k + 1 :])
        for c in drop_each(s["ops"]):
            yield dict(sc, sessions=sc["sessions"][:k] + [dict(s, ops=c)] + sc["sessions"][k + 1 :])
    if len(sc["fns"]) > 1:
        for k in range(len(sc["fns"])):
            if all(s["fn"] != k and all(o[0] not in ("eval", "eager") or o[1] != k for o in s["ops"]) for s in sc["sessions"]):
                if k == len(sc["fns"]) - 1:
                    yield dict(sc, fns=sc["fns"][:k])


def setup():
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import tfc  # noqa: F401
    import tfc.utils.BF  # noqa: F401

    from .. import native

    native.load()


class W:
    pass


def _grow(n, cls):
    """Create objects until an array that doubles its capacity had to move (bounded)."""
    import numpy as np
    from tfc.utils import BF

    if cls.startswith("nELM"):
        args = (np.zeros(2), np.ones(2), np.arange(2, dtype=np.int32), 4)
    elif cls.startswith("n"):
        args = (np.zeros(2), np.ones(2), np.array([[0, 1], [0, -1]], dtype=np.int32), 3)
    else:
        args = (0.0, 1.0, np.arange(2, dtype=np.int32), 4)
    o = getattr(BF, cls)(*args)
    i = getattr(o, "identifier", 1 << 20)
    k = (1 << int(i).bit_length()) - int(i)
    if i > 3000 or k > 3000:
        k = 24
    keep = [o]
    for _ in range(k):
        keep.append(getattr(BF, cls)(*args))
    n["objects_created"] = n.get("objects_created", 0) + k + 1
    return keep


def run(sc):
    import ctypes
    import gc

    import jax
    import numpy as np

    from .. import native, objs, ref

    rt = native.load()
    native.begin_run()
    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    w = W()
    w.bad = None
    cfgs = sc["cfgs"]
    O = [objs.build(c) for c in cfgs]
    # per object: the sequence of weight states it went through
    hist = [[(c.get("w"), c.get("b"))] for c in cfgs]
    fns = []
    for i, d, full, p in sc["fns"]:
        meth = getattr(O[i], objs.method(cfgs[i], d))
        x = tuple(np.array(v) for v in objs.pts(cfgs[i], p))
        jf = jax.jit(lambda *a, meth=meth, full=full: meth(*a, full=full))
        ef = lambda *a, meth=meth, full=full: meth(*a, full=full)
        jf(*x)
        fns.append((i, d, full, x, jf, ef))
    depth = [0]
    keep = []
    interesting = [0]

    def fail(b):
        if w.bad is None:
            w.bad = b.v

    def evaluate(k, eager, what):
        i, d, full, x, jf, ef = fns[k]
        a = len(hist[i]) - 1
        r = np.array((ef if eager else jf)(*x))
        log.add(what, k, r)
        count("evaluations")
        cfg = cfgs[i]
        err = None
        for W_, B_ in hist[i][a:]:
            if not objs.relu_safe(cfg, x, W_, B_):
                return
            R, S = objs.refmat(cfg, x, d, full, W_, B_)
            err = ref.close(r, R, S)
            if err is None:
                break
        if len(hist[i]) - 1 > a:
            count("evaluations_overlapping_an_assignment")
        if err:
            fail(
                Bad(
                    "wrong-result",
                    f"{what} evaluation of {cfg['basis']} dim={cfg['kind']} d={d} full={full} matches no weight state that "
                    f"existed while it ran ({len(hist[i]) - a} state(s)): {err}",
                )
            )

    def do(op):
        k = op[0]
        if k == "grow":
            keep.append(_grow(n, op[1]))
            count("fault.registry_growth_during_evaluation")
        elif k == "eval":
            if depth[0] < 3:
                depth[0] += 1
                try:
                    evaluate(op[1], False, "nested")
                finally:
                    depth[0] -= 1
                count("fault.overlapping_evaluation")
        elif k == "eager":
            evaluate(op[1], True, "eager")
        elif k in ("setw", "setb"):
            i = op[1]
            W_, B_ = hist[i][-1]
            new = (op[2], B_) if k == "setw" else (W_, op[2])
            # while the assignment is in progress both states are allowed
            hist[i].append(new)
            if k == "setw":
                O[i].basisClass.w = objs.warr(cfgs[i], op[2])
            else:
                O[i].basisClass.b = np.array(op[2])
            count("fault.weight_assignment_during_evaluation")
        elif k == "getw":
            i = op[1]
            g = np.array(O[i].basisClass.w).ravel()
            if not np.array_equal(g, np.array(hist[i][-1][0])):
                fail(Bad("weights-readback", f"read weights {g.tolist()} after assigning {hist[i][-1][0]}"))
        elif k == "new":
            o = objs.build(cfgs[op[1]])
            objs.check_points(o, cfgs[op[1]])
            count("problems_built")
        elif k == "tmp":
            from tfc.utils import BF

            o = BF.ELMSin(0.0, 1.0, np.arange(1, dtype=np.int32), 6)
            o.H(np.linspace(0, 1, 3), 1, False)
            del o
        elif k == "gc":
            gc.collect()

    cur = {"ops": [], "pos": 0}

    def hook(fid):
        if cur["pos"] >= len(cur["ops"]):
            return 0
        op = cur["ops"][cur["pos"]]
        cur["pos"] += 1
        if op[0] == "none":
            return 0
        interesting[0] += 1
        rt.sim_host_enter()
        try:
            do(op)
        except Bad as b:
            fail(b)
        except BaseException as e:
            fail(Bad("exception", f"{op[0]} during a compiled evaluation: {type(e).__name__}: {e}"))
        finally:
            rt.sim_host_exit()
        return 1

    h = native.HOOK(hook)
    v = None
    traces = []
    try:
        for s in sc["sessions"]:
            flat = [x for p in s["plan"] for x in p]
            arr = (ctypes.c_int * max(1, len(flat)))(*flat)
            cur["ops"], cur["pos"] = s["ops"], 0
            rt.sim_begin(arr, len(flat), h)
            try:
                evaluate(s["fn"], False, "outer")
            except Bad as b:
                fail(b)
            except Exception as e:
                fail(Bad("exception", f"compiled evaluation raised {type(e).__name__}: {e}"))
            finally:
                rt.sim_end()
            st = native.stats()
            traces.append(st["trace"])
            count("native_steps", st["steps"])
            count("preemptions_of_evaluations", st["to_host"])
            count("preemptions_of_interpreter_work", st["to_fiber"])
            count("lock_waits", st["blocked"])
            if st["max_active"] > 1:
                count("sessions_with_overlapping_evaluations")
            log.add(st["trace"])
            e = native.error()
            if e:
                raise Bad("native-memory" if "deadlock" not in e and "livelock" not in e else "deadlock", e)
            if w.bad:
                break
        if w.bad is None:
            # afterwards everything still works and agrees with the last assigned state
            for k in range(len(fns)):
                evaluate(k, False, "afterwards, compiled")
                evaluate(k, True, "afterwards, eager")
            e = native.error()
            if e:
                raise Bad("native-memory", e)
        v = w.bad
    except Bad as b:
        v = b.v
    log.add(v and v["class"])
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(traces) if interesting[0] else None,
        "sample": {"objects": [[c["basis"], c["kind"]] for c in cfgs], "sessions": [dict(s, plan=s["plan"][:4], ops=[o[:2] for o in s["ops"][:6]]) for s in sc["sessions"][:2]]},
        "sim_time": 0.0,
    }
