"""S04: random-feature weights and biases are exactly what was last assigned, whatever happened around it."""
from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "sim"
BATCH = 20
RUN_TIMEOUT = 60
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 1000, "seconds": 70, "recheck": 2},
    "thorough": {"runs": 24000, "seconds": 1200, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over 1-3 random-feature objects (5 activations, 1-3 dimensions, both backends) of "
    "assignments from arrays of every memory layout and element type, later changes to the assigned or the read-back arrays, "
    "rejected, interrupted and memory-starved assignments, evaluations (eager, compiled before and after) and drops of other "
    "objects. Non-trivial: at least two assignments and two compared evaluations; distinct by the scenario."
)
MEASURE = "hash of all values read back, all result bytes and all outcomes"
REAL = ["tfc.utils.BF (C++, instrumented build)", "tfc.utils.BF_Py", "tfc.utfc", "tfc.mtfc", "jax", "XLA CPU"]
STUB = ["random number generators (seeded per run)", "native allocator of the extension (failures and red zones)", "asynchronous interrupt (raised at a seeded line)"]
ASSUMPTIONS = ["the numpy reference in sim/ref.py defines the matrices for given weights"]

LAYOUTS = ["C", "F", "stride2", "rev", "T", "f32", "int", "jax", "ro", "big", "flat", "row"]


def gen(rng, tier):
    from .. import objs

    cfgs = []
    for _ in range(rng.choice([1, 2, 3])):
        c = objs.gen_cfg(rng, elm=True, small=True)
        if rng.random() < 0.35:
            c["backend"] = "Python"
        cfgs.append(c)
    fns = []

    former = {}
    lastev = {}
    pool = [[rnd(rng, 0, 1) for _ in range(q)] for q in (1, 3, 4)]

    def vals(i, k):
        m = cfgs[i]["deg"] + 1
        z = m * (cfgs[i]["kind"] if k == "w" else 1)
        v = [rnd(rng, -2, 2) for _ in range(z)]
        f = former.get((i, k))
        if f is not None and rng.random() < 0.5:
            # a close relative of the values assigned before: few changed, permuted, negated, or the same again
            q = rng.randint(0, 5)
            w = list(f)
            if q <= 1:
                w[rng.randrange(1, z - 1) if q == 0 and z > 2 else rng.randrange(z)] = v[0]
            elif q == 2:
                w.reverse()
            elif q == 3:
                w = [-t for t in w]
            elif q == 4:
                a, b = rng.randrange(z), rng.randrange(z)
                w[a], w[b] = w[b], w[a]
            v = w
        former[i, k] = v
        return v

    def ev(i):
        if i in lastev and rng.random() < 0.6:
            # the same evaluation again, or with one thing changed
            e = list(lastev[i])
            q = rng.randint(0, 5)
            if q == 0:
                e[1] = rng.choice([d for d in objs.derivs(cfgs[i]) if sum(d) <= 4])
            elif q == 1:
                e[2] = not e[2]
            elif q == 2:
                e[3] = rng.choice(pool)
        else:
            e = [i, rng.choice([d for d in objs.derivs(cfgs[i]) if sum(d) <= 4]), rng.random() < 0.35, rng.choice(pool)]
        lastev[i] = e
        return e

    ops = []
    nf = 0
    assign = [rng.random() < 0.6 for _ in cfgs]
    for i, c in enumerate(cfgs):
        if assign[i]:
            former[i, "w"], former[i, "b"] = c["w"], c["b"]
    for _ in range(rng.randint(6, 20)):
        i = rng.randrange(len(cfgs))
        k = rng.choice("wwb")
        r = rng.random()
        if r < 0.32:
            look = rng.random() < 0.35
            if look:
                ops.append(["ev"] + ev(i))
            ops.append(["set", i, k, rng.choice(LAYOUTS), vals(i, k)])
            if look:
                ops.append(["ev"] + lastev[i])
        elif r < 0.40:
            ops.append(["mutsrc", rnd(rng, -5, 5)])
        elif r < 0.46:
            ops.append(["mutread", i, k, rnd(rng, -5, 5)])
        elif r < 0.54:
            ops.append(["bad", i, k, rng.choice(["short", "long", "empty", "double"]), rnd(rng, -2, 2)])
        elif r < 0.60:
            ops.append(["int", i, k, rng.randint(0, 6), rng.choice(LAYOUTS), vals(i, k)])
        elif r < 0.64:
            ops.append(["oom", i, k, rng.randint(0, 3), vals(i, k)])
        elif r < 0.72:
            ops.append(["get", i, k])
        elif r < 0.80 and cfgs[i]["backend"] == "C++":
            ops.append(["compile", nf] + ev(i))
            nf += 1
        elif r < 0.88 and nf:
            ops.append(["call", rng.randrange(nf)])
        elif r < 0.90:
            ops.append(["renew", i])
        elif r < 0.92:
            ops.append(["copyfrom", i, rng.randrange(len(cfgs))])
        else:
            ops.append(["ev"] + ev(i))
    return {"cfgs": cfgs, "rseed": rng.randrange(1 << 30), "ops": ops, "assign": assign, "finals": [ev(i) for i in range(len(cfgs))]}


def shrink(sc):
    for c in drop_each(sc["ops"]):
        yield dict(sc, ops=c)


def setup():
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import tfc  # noqa: F401
    import tfc.utils.BF  # noqa: F401
    import tfc.utils.BF_Py  # noqa: F401

    from .. import native, sched

    native.load()
    sched.install()


def layout(cfg, k, lay, v):
    """Returns (array to assign, array that may be mutated later or None, the values it denotes)."""
    import jax.numpy as jnp
    import numpy as np

    m = cfg["deg"] + 1
    two = k == "w" and cfg["kind"] > 1
    shp = (cfg["kind"], m) if two else (m,)
    a = np.array(v, float).reshape(shp)
    if lay == "F":
        r = np.asfortranarray(a) if two else a.copy()
        return r, r, a
    if lay == "stride2":
        big = np.full(tuple(2 * s for s in shp), 77.0)
        sl = tuple(slice(None, None, 2) for _ in shp)
        big[sl] = a
        return big[sl], big, a
    if lay == "rev":
        b = a[..., ::-1].copy()
        return b[..., ::-1], b, a
    if lay == "T":
        b = a.T.copy()
        return b.T, b, a
    if lay == "f32":
        b = a.astype(np.float32)
        return b, b, b.astype(float)
    if lay == "int":
        b = np.round(a * 2).astype(np.int64)
        return b, b, b.astype(float)
    if lay == "jax":
        return jnp.array(a), None, a
    if lay == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b, None, a
    if lay == "big":
        b = a.copy()
        b.flat[0] = 1e6
        b.flat[-1] = -0.0
        return b, b, b.copy()
    if lay == "flat" and (cfg["backend"] == "Python" or not two):
        b = a.ravel().copy()
        return b, b, a
    if lay == "row" and not two:
        b = a.reshape(1, -1).copy()
        return b, b, a
    b = a.copy()
    return b, b, a


def run(sc):
    import ctypes
    import gc

    import jax
    import numpy as np

    from .. import native, objs, ref, sched

    rt = native.load()
    rt.sim_fail_at.argtypes = [ctypes.c_int64]
    native.begin_run()
    ctypes.CDLL(None).srand(sc["rseed"])
    np.random.seed(sc["rseed"])
    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    cfgs = sc["cfgs"]
    O, cur = [], []

    def read(i, k):
        a = np.array(getattr(O[i].basisClass, k))
        m = cfgs[i]["deg"] + 1
        want = m * (cfgs[i]["kind"] if k == "w" else 1)
        if a.size != want:
            raise Bad("readback-size", f"{k} of a {cfgs[i]['basis']} object reads back {a.size} values, it has {want}")
        return a.ravel().copy()

    def make(i):
        from tfc import mtfc, utfc

        c = cfgs[i]
        nC = c["nCarg"]
        if c["kind"] == 1:
            return utfc(c["N"], nC, c["deg"], basis=c["basis"], x0=c["x0"], xf=c["xf"], backend=c["backend"])
        return mtfc(list(c["n"]), nC if isinstance(nC, int) else list(nC), c["deg"], dim=c["kind"], basis=c["basis"], x0=list(c["x0"]), xf=list(c["xf"]), backend=c["backend"])

    srcs = []  # arrays the caller still owns

    def expect(i, k, what):
        g = read(i, k)
        w = cur[i][k]
        log.add(what, g if np.isfinite(g).all() else repr(g))
        if not np.array_equal(g, w):
            raise Bad("not-as-assigned", f"{what}: {k} of {cfgs[i]['backend']} {cfgs[i]['basis']} dim={cfgs[i]['kind']} reads {g.tolist()}, last assigned {w.tolist()}")

    def all_ok(what):
        for i in range(len(cfgs)):
            for k in "wb":
                expect(i, k, what)

    def cmp(i, r, d, full, x, what):
        c = cfgs[i]
        W, B = cur[i]["w"], cur[i]["b"]
        log.add(r)
        if max(np.abs(W).max(), np.abs(B).max()) > 50 or not objs.relu_safe(c, x, W, B):
            return
        R, S = objs.refmat(c, x, d, full, W, B)
        # larger weights amplify derivatives: scale with the size of the entries
        e = ref.close(r, R, S)
        count("evaluations_compared")
        if e:
            raise Bad("wrong-matrix", f"{what}: {c['backend']} {c['basis']} dim={c['kind']} d={d} full={full}: {e}")

    def evaluate(e, what):
        i, d, full, p = e
        x = tuple(np.array(v) for v in objs.pts(cfgs[i], p))
        r = np.array(getattr(O[i], objs.method(cfgs[i], d))(*x, full=full))
        cmp(i, r, d, full, x, what)

    def assign(i, k, lay, v, fault=None):
        a, own, val = layout(cfgs[i], k, lay, v)
        before = cur[i][k]
        try:
            if fault is None:
                setattr(O[i].basisClass, k, a)
            else:
                fault(lambda: setattr(O[i].basisClass, k, a))
            cur[i][k] = np.array(val, float).ravel()
        except (sched.Interrupted, MemoryError) as e:
            log.add(type(e).__name__)
            g = read(i, k)
            if not any(np.array_equal(g, s) for s in (before, np.array(val, float).ravel())):
                raise Bad("torn-weights", f"after an interrupted assignment {k} reads {g.tolist()}: neither the old nor the new values")
            cur[i][k] = g
        if own is not None:
            srcs.append(own)

    fns = {}
    v = None
    try:
        for i, c in enumerate(cfgs):
            O.append(make(i))
            cur.append({})
            for k in "wb":
                cur[i][k] = read(i, k)
        all_ok("drawn weights read again")
        for i, c in enumerate(cfgs):
            if sc["assign"][i]:
                assign(i, "w", "C", c["w"])
                assign(i, "b", "C", c["b"])
        for op in sc["ops"]:
            o = op[0]
            if o == "set":
                assign(op[1], op[2], op[3], op[4])
                count("assignments")
                count("layout." + op[3])
            elif o == "mutsrc":
                for s in srcs:
                    s[...] = op[1]
                count("fault.caller_overwrites_assigned_arrays", len(srcs) > 0)
                srcs.clear()
            elif o == "mutread":
                a = getattr(O[op[1]].basisClass, op[2])
                try:
                    a[...] = op[3]
                    count("fault.caller_overwrites_read_arrays")
                except (TypeError, ValueError):
                    pass  # handing out an immutable array is fine
            elif o == "bad":
                _, i, k, how, val = op
                m = cfgs[i]["deg"] + 1
                two = k == "w" and cfgs[i]["kind"] > 1
                s = {"short": m - 1, "long": m + 1, "empty": 0, "double": 2 * m + 1}[how]
                a = np.full((cfgs[i]["kind"], s) if two else (s,), val)
                try:
                    setattr(O[i].basisClass, k, a)
                except Exception as e:
                    log.add(type(e).__name__)
                    count("fault.rejected_assignment")
                else:
                    raise Bad("wrong-size-accepted", f"{k} of size {a.shape} accepted by a {cfgs[i]['backend']} {cfgs[i]['basis']} object with {m} functions")
            elif o == "int":
                _, i, k, at, lay, vv = op

                def fault(f):
                    with sched.Interrupt(at) as it:
                        try:
                            f()
                        finally:
                            if it.fired:
                                count("fault.interrupted_assignment")

                assign(i, k, lay, vv, fault)
            elif o == "oom":
                _, i, k, at, vv = op

                def fault(f):
                    f0 = native.stats()["failed"]
                    rt.sim_fail_at(at)
                    try:
                        f()
                    finally:
                        rt.sim_fail_at(-1)
                        if native.stats()["failed"] > f0:
                            count("fault.allocation_failure")

                assign(i, k, "C", vv, fault)
            elif o == "get":
                expect(op[1], op[2], "read")
            elif o == "compile":
                _, f, i, d, full, p = op
                x = tuple(np.array(q) for q in objs.pts(cfgs[i], p))
                meth = getattr(O[i], objs.method(cfgs[i], d))
                fns[f] = (jax.jit(lambda *a, meth=meth, full=full: meth(*a, full=full)), i, d, full, x, O[i])
                cmp(i, np.array(fns[f][0](*x)), d, full, x, "compiled")
            elif o == "call":
                if op[1] in fns and fns[op[1]][5] is O[fns[op[1]][1]]:
                    f, i, d, full, x, _ = fns[op[1]]
                    cmp(i, np.array(f(*x)), d, full, x, "compiled earlier")
                    count("earlier_compiled_calls")
            elif o == "renew":
                i = op[1]
                O[i] = make(i)
                cur[i] = {k: read(i, k) for k in "wb"}
                gc.collect()
            elif o == "copyfrom":
                _, i, j = op
                if cfgs[i]["kind"] == cfgs[j]["kind"] and cfgs[i]["deg"] == cfgs[j]["deg"] and i != j:
                    for k in "wb":
                        setattr(O[i].basisClass, k, getattr(O[j].basisClass, k))
                        cur[i][k] = cur[j][k].copy()
                    count("assignments")
            elif o == "ev":
                evaluate(op[1:], "evaluated")
            all_ok("after " + o)
            e = native.error()
            if e:
                raise Bad("native-memory", e)
        for e in sc["finals"]:
            evaluate(e, "evaluated at the end")
    except Bad as b:
        v = b.v
    except Exception as e:
        v = Bad("exception", f"{type(e).__name__}: {e}").v
    log.add(v and v["class"])
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(sc) if n.get("assignments", 0) >= 2 and n.get("evaluations_compared", 0) >= 2 else None,
        "sample": {"objects": [[c["backend"], c["basis"], c["kind"]] for c in cfgs], "ops": [o[:4] for o in sc["ops"][:8]]},
    }
