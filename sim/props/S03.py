"""S03: a failed native allocation surfaces as an error of the call that met it and harms nothing else."""
import json

from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "sim"
BATCH = 10
RUN_TIMEOUT = 60
LEVEL = "fault_enumeration"
TIERS = {
    "quick": {"runs": 480, "seconds": 70, "recheck": 2},
    "thorough": {"runs": 12000, "seconds": 1200, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over 1-3 C++ problem objects of constructions, eager evaluations and weight "
    "assignments/reads; each of them is repeated with its 1st, 2nd, 3rd ... native allocation failing until none is left to "
    "fail, and between them objects created before and after the failures are evaluated eagerly and compiled. Non-trivial: "
    "at least three injected allocation failures fired; distinct by the scenario."
)
MEASURE = "hash of the outcome of every call (error type or result bytes) together with the allocation index that failed"
REAL = ["tfc.utils.BF (C++, instrumented build)", "tfc.utfc", "tfc.mtfc", "jax", "XLA CPU"]
STUB = ["native allocator (malloc, calloc, realloc, operator new) of the extension"]
ASSUMPTIONS = [
    "allocations made by CPython, numpy, pybind11, jax and XLA themselves do not fail",
    "an allocation that fails inside a compiled evaluation (on an XLA thread) is outside the property",
]


def gen(rng, tier):
    from .. import objs

    cfgs = [objs.gen_cfg(rng, backend="C++", small=True, elm=rng.random() < 0.5) for _ in range(rng.choice([1, 2, 3]))]
    elms = [i for i, c in enumerate(cfgs) if c["basis"] in objs.ELM]

    def ev(i):
        return [i, rng.choice(objs.derivs(cfgs[i])), rng.random() < 0.35, [rnd(rng, 0, 1) for _ in range(rng.choice([1, 3, 6]))]]

    def arr(i, k):
        m = cfgs[i]["deg"] + 1
        return [rnd(rng, -2, 2) for _ in range(m * (cfgs[i]["kind"] if k == "w" else 1))]

    ops = []
    for _ in range(rng.randint(3, 8)):
        i = rng.randrange(len(cfgs))
        r = rng.random()
        if r < 0.3:
            ops.append(["new", i])
        elif r < 0.65:
            ops.append(["ev", ev(i)])
        elif r < 0.85 and elms:
            i = rng.choice(elms)
            k = rng.choice("wb")
            ops.append(["set", i, k, arr(i, k), arr(i, k)])
        elif elms:
            ops.append(["get", rng.choice(elms), rng.choice("wb")])
        else:
            ops.append(["ev", ev(i)])
    return {"cfgs": cfgs, "ops": ops, "probe": [ev(i) for i in range(len(cfgs))], "stride": rng.choice([1, 1, 1, 2]), "repeat": rng.random() < 0.3}


def shrink(sc):
    for c in drop_each(sc["ops"], 1):
        yield dict(sc, ops=c)
    if sc["stride"] != 1:
        yield dict(sc, stride=1)
    if sc["repeat"]:
        yield dict(sc, repeat=False)


def setup():
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import tfc  # noqa: F401
    import tfc.utils.BF  # noqa: F401

    from .. import native

    native.load()


def run(sc):
    import ctypes

    import jax
    import numpy as np

    from .. import native, objs, ref

    rt = native.load()
    rt.sim_fail_at.argtypes = [ctypes.c_int64]
    native.begin_run()
    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    cfgs = sc["cfgs"]
    O = [objs.build(c) for c in cfgs]
    # the weight states each array may be in (a failed assignment leaves the old or the new values)
    Ws = [{"w": [c.get("w")], "b": [c.get("b")]} for c in cfgs]

    def matches(i, r, x, d, full):
        c = cfgs[i]
        err = None
        for a in Ws[i]["w"]:
            for b in Ws[i]["b"]:
                if not objs.relu_safe(c, x, a, b):
                    return None
                R, S = objs.refmat(c, x, d, full, a, b)
                err = ref.close(r, R, S)
                if err is None:
                    return None
        return err

    def check(i, r, x, d, full, what):
        e = matches(i, r, x, d, full)
        count("results_compared")
        if e:
            raise Bad("wrong-result", f"{what}: {cfgs[i]['basis']} dim={cfgs[i]['kind']} d={d} full={full}: {e}")

    def X(i, p):
        return tuple(np.array(v) for v in objs.pts(cfgs[i], p))

    fns = []
    for i, d, full, p in sc["probe"]:
        meth = getattr(O[i], objs.method(cfgs[i], d))
        x = X(i, p)
        f = jax.jit(lambda *a, meth=meth, full=full: meth(*a, full=full))
        f(*x)
        fns.append((i, d, full, x, f))

    def attempt(what, f, k):
        """Run f with its k-th native allocation failing. Returns (fired, ok, value)."""
        f0 = native.stats()["failed"]
        rt.sim_fail_at(k)
        try:
            r = f()
            out = ("ok", r)
        except MemoryError as e:
            out = ("err", e)
        except Exception as e:
            out = ("exc", e)
        finally:
            rt.sim_fail_at(-1)
        fired = native.stats()["failed"] > f0
        if fired:
            count("fault.allocation_failure." + what)
        log.add(what, k, fired, out[0])
        if out[0] == "exc":
            if not fired:
                raise Bad("exception", f"{what} failed without an injected fault: {type(out[1]).__name__}: {out[1]}")
            raise Bad("wrong-error", f"{what} met a failed allocation (number {k}) and raised {type(out[1]).__name__}: {out[1]} instead of MemoryError")
        if out[0] == "err" and not fired:
            raise Bad("spurious-error", f"{what} raised MemoryError although no allocation failed")
        return fired, out[0] == "ok", out[1]

    def probes(what):
        for i, d, full, x, f in fns:
            check(i, np.array(f(*x)), x, d, full, f"compiled function after a failed {what}")
        e = native.error()
        if e:
            raise Bad("native-memory", f"after a failed {what}: {e}")

    def sweep(what, f, after, cap=80):
        k = 0
        while k < cap:
            fired, ok, val = attempt(what, f, k)
            after(ok, val)
            if not fired:
                break
            if sc["repeat"]:
                attempt(what, f, k)
            k += sc["stride"]
        probes(what)
        ok = attempt(what, f, -1)
        after(ok[1], ok[2])

    v = None
    try:
        for op in sc["ops"]:
            if op[0] == "new":
                i = op[1]
                c = cfgs[i]
                made = []
                # weights are assigned inside: keep that out of the construction sweep
                base = {k: x for k, x in c.items()}
                base["basis"] = c["basis"]

                def mk(c=c):
                    from tfc import mtfc, utfc

                    if c["kind"] == 1:
                        return utfc(c["N"], c["nCarg"], c["deg"], basis=c["basis"], x0=c["x0"], xf=c["xf"])
                    nC = c["nCarg"]
                    return mtfc(list(c["n"]), nC if isinstance(nC, int) else list(nC), c["deg"], dim=c["kind"], basis=c["basis"], x0=list(c["x0"]), xf=list(c["xf"]))

                sweep("construction", mk, lambda ok, o: made.append(o) if ok else None)
                o = made[-1]
                if c["basis"] in objs.ELM:
                    objs.setw(o, c, c["w"], c["b"])
                _, d, full, p = sc["probe"][i]
                x = X(i, p)
                meth = getattr(o, objs.method(c, d))
                saved = Ws[i]
                Ws[i] = {"w": [c.get("w")], "b": [c.get("b")]}
                check(i, np.array(jax.jit(lambda *a: meth(*a, full=full))(*x)), x, d, full, "compiled evaluation of an object created after failed constructions")
                check(i, np.array(meth(*x, full=full)), x, d, full, "evaluation of an object created after failed constructions")
                Ws[i] = saved
            elif op[0] == "ev":
                i, d, full, p = op[1]
                x = X(i, p)
                meth = getattr(O[i], objs.method(cfgs[i], d))
                sweep("evaluation", lambda: np.array(meth(*x, full=full)), lambda ok, r: check(i, r, x, d, full, "evaluation") if ok else None)
            elif op[0] == "set":
                _, i, k, a1, a2 = op
                conv = (lambda a: objs.warr(cfgs[i], a)) if k == "w" else (lambda a: np.array(a))
                turn = [0]

                def f():
                    turn[0] ^= 1
                    a = a1 if turn[0] else a2
                    if a not in Ws[i][k]:
                        Ws[i][k].append(a)
                    setattr(O[i].basisClass, k, conv(a))
                    Ws[i][k] = [a]

                def after(ok, _):
                    g = np.array(getattr(O[i].basisClass, k)).ravel().tolist()
                    if g not in [list(map(float, s)) for s in Ws[i][k]]:
                        raise Bad("torn-weights", f"{k} reads {g}, expected one of {Ws[i][k]} after a failed assignment")
                    Ws[i][k] = [g]

                sweep("assignment", f, after)
            elif op[0] == "get":
                _, i, k = op

                def after(ok, r):
                    if ok and np.array(r).ravel().tolist() != list(map(float, Ws[i][k][0])):
                        raise Bad("weights-readback", f"read {np.array(r).ravel().tolist()}, assigned {Ws[i][k]}")

                sweep("read", lambda: getattr(O[i].basisClass, k), after)
            e = native.error()
            if e:
                raise Bad("native-memory", e)
        for i, c in enumerate(cfgs):
            objs.check_points(O[i], c)
    except Bad as b:
        v = b.v
    finally:
        rt.sim_fail_at(-1)
    log.add(v and v["class"])
    fired = sum(x for k, x in n.items() if k.startswith("fault."))
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(sc) if fired >= 3 else None,
        "sample": {"objects": [[c["basis"], c["kind"]] for c in cfgs], "ops": [o[:2] for o in sc["ops"]], "allocation_failures": fired},
    }
