"""S01: a basis evaluation is determined by its own problem object, whatever else the process did or does."""
import json
import threading

from ..util import Bad, Log, drop_each, rnd, sig, viol

BUILD = "sim"
BATCH = 24
RUN_TIMEOUT = 90
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 960, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 24000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over several problem objects (1-3 dimensions, 8 bases, both backends): construction, "
    "failing or interrupted construction, weight assignment, evaluation through methods, compiled functions, functions "
    "compiled earlier, automatic derivatives (both modes, nested, repeated up to order 8, batched), partially evaluated functions, hybrids and basis classes used directly, complex problems of the Python backend, dropping, garbage collection, "
    "cache clearing; in part of the cases split over 2-3 simulated threads. Non-trivial: at least two objects exist and "
    "at least three evaluations are compared with the reference; distinct by the complete scenario."
)
MEASURE = "hash of the event log (every operation's result bytes, and every thread switch with its code location)"
REAL = ["tfc.utfc", "tfc.mtfc", "tfc.utils.BF (C++, instrumented build)", "tfc.utils.BF_Py", "tfc.utils.TFCUtils", "jax", "XLA CPU"]
STUB = ["thread scheduler (seeded)", "native heap (red zones, poisoned free)", "jax.ffi target registration (only while an injected failure is armed)"]
ASSUMPTIONS = [
    "the numpy reference in sim/ref.py defines the matrices; comparisons use a relative tolerance of 1e-9 of the natural scale",
    "interleavings of caller threads switch at line boundaries of the repository's Python code, not inside jax tracing",
]


LAYS = ("step", "rev", "ro", "F")


def lay(a, how):
    """The same array with another layout in memory."""
    import numpy as np

    if how == "step":
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 3, a.dtype)[..., ::2]
    elif how == "rev":
        b = np.empty_like(a)[..., ::-1]
    elif how == "F":
        return np.asfortranarray(a)
    else:
        b = a.copy()
    b[...] = a
    if how == "ro":
        b.flags.writeable = False
    return b


def gen(rng, tier):
    from .. import objs

    nobj = rng.randint(2, 5)
    cfgs = [objs.gen_cfg(rng, cplx=True) for _ in range(nobj)]
    if rng.random() < 0.4:
        for c in cfgs:
            if c["kind"] == 1:
                c["N"] = 5
    raws = []
    for _ in range(3):
        c = {"basis": rng.choice(["LaP", "HoPpro", "HoPphy", "CP", "LeP", "FS"]), "backend": rng.choice(["C++", "Python"]), "deg": rng.choice([0, 1, 2, 3, 5, 7]), "x0": rnd(rng, -1, 1)}
        c["xf"] = round(c["x0"] + rng.choice([0.5, 1.0, 2.5]), 3)
        c["nC"] = rng.sample(range(c["deg"] + 1), rng.randint(0, min(2, c["deg"])))
        if rng.random() < 0.4:
            # a basis of several dimensions
            c["basis"] = rng.choice(["CP", "LeP", "FS"])
            dim, c["deg"] = rng.choice([2, 2, 3]), rng.choice([2, 3, 4])
            q = rng.choice([0, 1, 2])
            c["nC"] = [rng.sample(range(c["deg"] + 1), q) for _ in range(dim)]
            c["x0"] = [rnd(rng, -1, 1) for _ in range(dim)]
            c["xf"] = [round(v + rng.choice([0.5, 1.0, 2.5]), 3) for v in c["x0"]]
        c["lay"] = [rng.choice(["C", "C", "step", "rev", "F", "ro"]) for _ in range(2)]
        raws.append(c)
    for c in cfgs:
        # the arguments are arrays or lists that the caller overwrites after the construction
        c["mut"] = rng.random() < 0.4
    # near twins: the same definition except for one thing, the classic source of cross-talk
    pairs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        src = rng.randrange(len(cfgs))
        pairs += [src, len(cfgs)]
        t = json.loads(json.dumps(cfgs[src]))
        k = rng.choice([0, 1, 2, 3, 4, 4, 5, 6])
        if k == 4:
            # same width, other place
            if t["kind"] == 1:
                t["x0"], t["xf"] = round(t["x0"] + 0.75, 3), round(t["xf"] + 0.75, 3)
            else:
                t["x0"], t["xf"] = [round(v + 0.75, 3) for v in t["x0"]], [round(v + 0.75, 3) for v in t["xf"]]
        elif k == 5 and t["deg"] > 0 and (t["kind"] == 1 or t["basis"] in objs.ELM):
            # as many functions removed, but others
            q = len(t["nC"])
            t["nCarg"] = t["nC"] = sorted(rng.sample(range(t["deg"] + 1), q)) if q else [t["deg"]]
        elif k == 6 and t["basis"] in objs.ELM:
            # one of weights and biases differs
            w, b = t["w"], t["b"]
            objs.seedw(rng, t, t["kind"])
            if rng.random() < 0.5:
                t["w"] = w
            else:
                t["b"] = b
        elif k == 0:
            t["basis"] = rng.choice(objs.ELM if t["basis"] in objs.ELM else objs.POLY)
        elif k == 1:
            if t["kind"] == 1:
                t["xf"] = round(t["xf"] + 0.5, 3)
            else:
                t["xf"] = [round(v + 0.5, 3) for v in t["xf"]]
        elif k == 2:
            t["backend"] = "Python" if t["backend"] == "C++" else "C++"
        elif t["basis"] in objs.ELM:
            objs.seedw(rng, t, t["kind"])
        else:
            t["deg"] += 1
        cfgs.append(t)
    threaded = rng.random() < 0.35
    nth = rng.choice([2, 2, 3]) if threaded else 1
    pre = [["new", i] for i in range(len(cfgs)) if rng.random() < (0.7 if threaded else 0.4)]
    made = {op[1] for op in pre}
    fns = []

    # points that differ from each other in little: same number, same ends, same values in another order
    base = [rnd(rng, 0, 1) for _ in range(rng.choice([2, 3, 4, 5]))]
    if rng.random() < 0.6:
        base[0], base[-1] = 0.0, 1.0
    pool = [base]
    for _ in range(3):
        q = list(rng.choice(pool))
        k = rng.randint(0, 3)
        if k == 0 and len(q) > 2:
            q[rng.randint(1, len(q) - 2)] = rnd(rng, 0, 1)
        elif k == 1:
            q.reverse()
        elif k == 2:
            q[rng.randrange(len(q))] = rnd(rng, 0, 1)
        else:
            rng.shuffle(q)
        pool.append(q)
    last = {}

    def ev(i):
        # a close relative of the former evaluation, or a new one
        if rng.random() < 0.4 and "e" in last:
            e = list(last["e"])
            k = rng.randint(0, 4)
            same = [q for q in range(len(cfgs)) if cfgs[q]["kind"] == cfgs[e[1]]["kind"] and cfgs[q]["backend"] == cfgs[e[1]]["backend"] and e[3] in objs.derivs(cfgs[q])]
            if k <= 1 and len(same) > 1:
                e[1] = rng.choice([q for q in same if q != e[1]])
            elif k == 2 and not e[2].startswith("egrad"):
                e[3] = rng.choice(objs.derivs(cfgs[e[1]]))
            elif k == 3:
                e[4] = not e[4]
            else:
                e[5] = rng.choice(pool)
        else:
            e = ev0(i)
        last["e"] = e
        return e

    def ev0(i):
        c = cfgs[i]
        d = rng.choice(objs.derivs(c))
        modes = ["eager", "eager", "egrad"]
        if c["backend"] == "C++":
            modes += ["jit", "jit", "egradjit", "nojitctx"]
        else:
            modes += ["pejit"]
        mode = rng.choice(modes)
        if mode.startswith("egrad"):
            d = [0] if c["kind"] == 1 else [0] * c["kind"]
            if rng.random() < 0.5:
                d[0] = 1
        own = rng.random() < 0.4
        p = None if own else [rnd(rng, 0, 1)] if rng.random() < 0.1 else rng.choice(pool)
        return ["ev", i, mode, d, rng.random() < 0.3, p, rng.randrange(max(1, c["kind"])), rng.choice(["jax", "jax", "np", "buf", "npw", "f32", "f32j", "int", "mix", "step", "rev", "ro"])]

    def ad(i):
        # automatic differentiation in its several forms, compiled or not
        c = cfgs[i]
        d = [0] * c["kind"]
        if rng.random() < 0.3:
            d[0] = 1
        form = rng.choice(["affine", "affine", "jvp", "jvp", "jac", "grad", "other", "pair", "pair", "twice", "vmap", "vmapv", "vmapv", "vmapu", "vjac"])
        par = {"s": round(rng.choice([0.25, 0.5, 0.9]), 2), "rev": rng.random() < 0.5, "two": None}
        par["tan"] = [rng.choice([0.0, 0.0, 1.0, rnd(rng, -2, 2)]) for _ in range(c["kind"])]
        if form == "pair":
            same = [q for q in range(len(cfgs)) if cfgs[q]["backend"] == c["backend"]]
            par["two"] = rng.choice(same)
            j = rng.randrange(c["kind"] + cfgs[par["two"]]["kind"])
        else:
            j = rng.randrange(c["kind"])
        return ["ad", i, form, d, rng.random() < 0.3, rng.choice(pool), j, par, c["backend"] == "C++" and rng.random() < 0.5]

    def orders(i):
        # the object's basis evaluated directly for many order vectors
        c = cfgs[i]
        lim = 8 if c["backend"] == "C++" else 2 if c["basis"] in objs.ELM else 6
        ds = []
        for _ in range(rng.choice([4, 8, 8])):
            d = [0] * c["kind"]
            for _ in range(rng.randint(0, lim)):
                d[rng.randrange(c["kind"])] += 1
            ds.append(d)
        return ["orders", i, ds, rng.random() < 0.5, rng.choice(pool)]

    def deep(i):
        # high and mixed orders: automatic derivatives applied repeatedly to any of the methods
        c = cfgs[i]
        d = rng.choice(objs.derivs(c))
        if rng.random() < 0.6:
            d = [0] * c["kind"]
        lim = 8 if c["backend"] == "C++" else 3 if c["basis"] in objs.ELM else 5
        room = lim - sum(d)
        ups = [rng.randrange(c["kind"]) for _ in range(rng.choice([room, rng.randint(0, room), min(room, 3)]))] if room > 0 else []
        return ["deep", i, d, ups, rng.random() < 0.3, rng.choice(pool), c["backend"] == "C++" and rng.random() < 0.3]

    def team(one):
        # members of a hybrid have the same number of points
        n = cfgs[rng.choice(one)]["N"]
        return [rng.choice([i for i in one if cfgs[i]["N"] == n]) for _ in range(rng.choice([1, 2, 2, 2, 3]))]

    def op(t):
        r = rng.random()
        if r < 0.14:
            i = rng.randrange(len(cfgs))
            made.add(i)
            return ["new", i]
        if r < 0.22 and made:
            i = rng.choice(sorted(made))
            if cfgs[i]["basis"] in objs.ELM and not threaded:
                m = cfgs[i]["deg"] + 1
                return ["setw", i, [rnd(rng, -2, 2) for _ in range(m * cfgs[i]["kind"])], [rnd(rng, -2, 2) for _ in range(m)]]
            return ev(i)
        if r < 0.34 and made:
            i = rng.choice(sorted(made))
            if cfgs[i]["backend"] == "C++":
                e = ev0(i)
                fns.append(len(fns))
                return ["compile", len(fns) - 1, i, e[3], e[4], e[5]]
            return ev(i)
        if r < 0.46 and fns:
            return ["call", rng.choice(fns)]
        if r < 0.50:
            return ["bad", rng.choice(["basis", "backend", "nC", "dims", "dup", "range", "mdup", "mrange"])]
        if r < 0.53 and not threaded:
            return ["regfail", rng.randrange(len(cfgs))]
        if r < 0.57 and not threaded:
            return ["int", rng.randint(0, 60), rng.choice([["new", rng.randrange(len(cfgs))], ev(rng.randrange(len(cfgs)))])]
        if r < 0.60:
            return ["gc"]
        if r < 0.62 and not threaded:
            return ["clear"]
        if r < 0.66 and made and not threaded:
            return ["drop", rng.choice(sorted(made))]
        if r < 0.76:
            return ad(rng.randrange(len(cfgs)))
        if r < 0.80:
            one = [i for i in sorted(made) if cfgs[i]["kind"] == 1]
            if len(one) >= 1:
                return ["hybrid", team(one), rng.choice([0, 1, 2, 3, 4, 8]), rng.random() < 0.3, rng.choice(["eager", "eager", "jit", "egrad", "egradjit"])]
        if r < 0.82:
            return orders(rng.randrange(len(cfgs)))
        if r < 0.87:
            if rng.random() < 0.6:
                return deep(rng.randrange(len(cfgs)))
            return ["raw", rng.randrange(len(raws)), rng.choice([0, 0, 1, 2, 3, 4]), rng.random() < 0.3, rng.choice(pool)]
        return ev(rng.randrange(len(cfgs)))

    if threaded:
        ths = []
        for t in range(nth):
            fns.clear()
            made_t = set(made)
            ths.append([op(t) for _ in range(rng.randint(3, 7))])
            made.clear()
            made.update(made_t)
        # function ids are per thread
        plan = [[rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 60]), rng.randint(0, 5)] for _ in range(rng.randint(4, 40))]
    else:
        ths = [[op(0) for _ in range(rng.randint(6, 16))]]
        plan = []
    # at the end the near twins are evaluated side by side
    post = []
    for i in dict.fromkeys(pairs):
        c = cfgs[i]
        d = rng.choice([[0] * c["kind"], objs.derivs(c)[1]])
        post.append(["ev", i, "jit" if c["backend"] == "C++" and rng.random() < 0.7 else "eager", d, rng.random() < 0.3, pool[0], 0, "jax"])
    for i, c in enumerate(cfgs):
        if (c["basis"] in objs.ELM and c["backend"] == "C++") or rng.random() < 0.3:
            post.append(orders(i))
    # every method of some object, and of some hybrid, once: cheap without compilation
    if rng.random() < 0.5:
        i = rng.randrange(len(cfgs))
        q = rng.choice(pool)
        todo = [["ev", i, "eager", d, full, q, 0, "jax"] for d in objs.derivs(cfgs[i]) for full in (False, True)]
        rng.shuffle(todo)
        post += todo
    one = [i for i in range(len(cfgs)) if cfgs[i]["kind"] == 1]
    if one and rng.random() < 0.5:
        ids = team(one)
        todo = [["hybrid", ids, d, full, "eager"] for d in (0, 1, 2, 3, 4, 8) for full in (False, True)]
        rng.shuffle(todo)
        post += todo
    return {"cfgs": cfgs, "pre": pre, "threads": ths, "plan": plan, "post": post, "raws": raws}


def shrink(sc):
    if len(sc["threads"]) > 1:
        for k in range(len(sc["threads"])):
            yield dict(sc, threads=sc["threads"][:k] + sc["threads"][k + 1 :])
    for k, t in enumerate(sc["threads"]):
        for c in drop_each(t):
            yield dict(sc, threads=sc["threads"][:k] + [c] + sc["threads"][k + 1 :])
    for c in drop_each(sc["post"]):
        yield dict(sc, post=c)
    for c in drop_each(sc["pre"]):
        yield dict(sc, pre=c)
    for c in drop_each(sc["plan"]):
        yield dict(sc, plan=c)


def setup():
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import tfc  # noqa: F401
    import tfc.utils.BF  # noqa: F401
    import tfc.utils.BF_Py  # noqa: F401
    from .. import native, sched

    native.load()
    sched.install()


class World:
    def __init__(self, sc, counters):
        self.sc = sc
        self.cfgs = sc["cfgs"]
        self.objs = {}  # index -> (object, weights) shared between threads once created
        self.raw = {}
        self.kept = []
        self.bufs = {}
        self.n = counters

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1


def _need(w, i):
    if i not in w.objs:
        _new(w, i)
    return w.objs[i]


def _new(w, i):
    from .. import objs

    cfg = w.cfgs[i]
    o = objs.build(cfg)
    objs.check_points(o, cfg)
    w.objs[i] = [o, cfg.get("w"), cfg.get("b")]
    w.count("objects")
    return o


def _x(o, cfg, p):
    import jax.numpy as jnp

    from .. import objs

    if p is None:
        return (o.x,) if cfg["kind"] == 1 else tuple(o.x)
    return tuple(jnp.array(v) for v in objs.pts(cfg, p))


def _eval(w, op, log):
    import jax
    import numpy as np
    from tfc.utils import egrad, pejit

    from .. import objs

    _, i, mode, d, full, p, j, arr = op
    o, W, B = _need(w, i)
    cfg = w.cfgs[i]
    x = _x(o, cfg, p)
    other = False
    if p is not None and arr != "jax" and mode in ("eager", "jit"):
        x = tuple(np.array(v) for v in x)
        if arr == "buf":
            # the caller's own arrays, overwritten with new points for every evaluation
            bufs = w.bufs.setdefault((threading.get_ident(), len(x), x[0].shape, x[0].dtype.str), [np.zeros(v.shape, v.dtype) for v in x])
            for u, v in zip(bufs, x):
                u[...] = v
            x = tuple(bufs)
        elif arr in LAYS:
            x = tuple(lay(v, arr) for v in x)
            w.count("points." + arr)
        elif arr in ("f32", "f32j", "int", "mix") and cfg["backend"] == "C++":
            # points of other element types
            if arr == "int":
                x = tuple(np.round(v).astype(np.int64) for v in x)
            elif arr == "mix":
                x = tuple(v.astype(np.float32) if k % 2 == 0 else v for k, v in enumerate(x))
            else:
                x = tuple(v.astype(np.float32) for v in x)
            if arr == "f32j":
                x = tuple(jax.numpy.array(v) for v in x)
            w.count("points." + arr)
            other = True
    xs = [np.array(v) for v in x]
    meth = getattr(o, objs.method(cfg, d))
    f = lambda *a: meth(*a, full=full)
    dd = list(d)
    if other:
        xs = [np.array(v, float) for v in x]
    if mode == "eager":
        r = f(*x)
    elif mode == "jit":
        r = jax.jit(f)(*x)
    elif mode == "nojitctx":
        with jax.disable_jit():
            r = jax.jit(f)(*x)
    elif mode in ("egrad", "egradjit"):
        dd[j] += 1
        g = egrad(f, j)
        r = (jax.jit(g) if mode == "egradjit" else g)(*x)
    elif mode == "pejit":
        n = len(x)
        r = pejit(*x, 1.0, constant_arg_nums=list(range(n)))(lambda *a: f(*a[:n]) * a[n])(1.0)
    if not all(np.array_equal(np.asarray(u), v) for u, v in zip(x, xs)):
        raise Bad("points-changed", f"{mode}: evaluating changed the caller's points")
    r0, r = r, _keep(w, r)
    if arr == "npw" and mode == "eager":
        # the caller overwrites the matrix it got and the points it gave
        w.kept.pop()
        for v in (r0,) + (x if p is not None else ()):
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 7.25
                w.count("caller_overwrites")
    log.add("ev", i, mode, dd, full, r)
    if objs.relu_safe(cfg, xs, W, B):
        objs.compare(cfg, r, xs, dd, full, W, B, mode, out=other)
        w.count("evaluations_compared")
        w.count("mode." + mode)


def _ad(w, op, log):
    """Automatic derivatives: nested in other functions, in both modes, with any tangents, of several objects at once."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from tfc.utils import egrad

    from .. import objs, ref

    _, i, form, d, full, p, j, par, jit = op
    e = _need(w, i)
    o, cfg = e[0], w.cfgs[i]
    x = _x(o, cfg, p)
    n = len(x)
    meth = getattr(o, objs.method(cfg, d))
    f = lambda *a: meth(*a, full=full)
    J = jax.jit if jit else (lambda g: g)
    xs = [np.array(v) for v in x]
    if objs.cx(cfg) or (form == "pair" and objs.cx(w.cfgs[par["two"]])):
        return
    if form == "affine":
        a0 = cfg["x0"] if cfg["kind"] == 1 else cfg["x0"][j]
        xs[j] = a0 + par["s"] * (xs[j] - a0)
    if not objs.relu_safe(cfg, xs, e[1], e[2]):
        return

    def R(*up):
        dd = list(d)
        for q in up:
            dd[q] += 1
        return objs.refmat(cfg, xs, dd, full, e[1], e[2])

    def eye(M):
        return M[:, :, None] * np.eye(M.shape[0])[:, None, :]

    if form == "affine":
        s = par["s"]
        g = egrad(lambda *a: f(*[a0 + s * (v - a0) if k == j else v for k, v in enumerate(a)]), j)
        got = J(g)(*x)
        want, sc = (s * v for v in R(j))
    elif form == "twice":
        k = 0
        got = J(egrad(egrad(f, j), k))(*x)
        want, sc = R(j, k)
    elif form == "jvp":
        tans = tuple(jnp.full(v.shape, par["tan"][k]) for k, v in enumerate(x))
        prim, got = J(lambda x, t: jax.jvp(f, x, t))(x, tans)
        want, sc = np.zeros_like(R()[0]), R()[1] * 0
        for k in range(n):
            q = R(k)
            want, sc = want + par["tan"][k] * q[0], sc + abs(par["tan"][k]) * q[1]
        bad = ref.close(prim, *R())
        if bad:
            raise Bad("wrong-matrix", f"value of a forward derivative: {cfg['backend']} {cfg['basis']}: {bad}")
        sc = sc + 1e-6
    elif form == "jac":
        got = J((jax.jacrev if par["rev"] else jax.jacfwd)(f, j))(*x)
        want, sc = (eye(v) for v in R(j))
        N, M = want.shape[:2]
        if np.asarray(got).shape != want.shape:
            raise Bad("wrong-matrix", f"Jacobian has shape {np.asarray(got).shape}, expected {want.shape}")
        got, want, sc = np.asarray(got).reshape(N * M, N), want.reshape(N * M, N), sc.reshape(N * M, N) + 1e-6
    elif form == "grad":
        q = np.cos(np.arange(R()[0].size)).reshape(R()[0].shape)
        got = np.asarray(J(jax.grad(lambda *a: jnp.sum(f(*a) * q), j))(*x))[:, None]
        want, sc = R(j)
        want, sc = (want * q).sum(1)[:, None], sc.sum(1)[:, None] + 1e-6
    elif form == "vmap":
        got = J(jax.vmap(f))(*x)
        want, sc = R()
    elif form == "vmapv":
        # a batch of point vectors, along either axis
        ax = 1 if par["rev"] else 0
        got = J(jax.vmap(f, in_axes=ax))(*[jnp.stack([v, v[::-1]], axis=ax) for v in x])
        want, sc = R()
        if np.asarray(got).shape != (2,) + want.shape:
            raise Bad("wrong-matrix", f"batched evaluation has shape {np.asarray(got).shape}, expected {(2,) + want.shape}")
        got = np.asarray(got).reshape(-1, want.shape[1])
        want, sc = np.vstack([want, want[::-1]]), np.vstack([sc, sc[::-1]])
    elif form == "vmapu":
        # batched in one of the variables only
        fix = [v if k == j else v[0] for k, v in enumerate(x)]
        xs[:] = [v if k == j else np.full(v.shape, v[0]) for k, v in enumerate(xs)]
        if not objs.relu_safe(cfg, xs, e[1], e[2]):
            return
        got = J(jax.vmap(f, in_axes=tuple(0 if k == j else None for k in range(n))))(*fix)
        want, sc = R()
    elif form == "vjac":
        got = J(jax.vmap((jax.jacrev if par["rev"] else jax.jacfwd)(f, j)))(*x)
        want, sc = R(j)
    elif form == "other":
        m = R()[0].shape[1]
        got = np.asarray(J(egrad(lambda *a: f(*a[:n]) @ a[n], n))(*x, jnp.ones(m)))[:, None]
        want, sc = R()
        want, sc = want.sum(1)[:, None], sc.sum(1)[:, None] + 1e-6
    else:
        e2, cfg2 = _need(w, par["two"]), w.cfgs[par["two"]]
        y = _x(e2[0], cfg2, p)
        ys = [np.array(v) for v in y]
        if not objs.relu_safe(cfg2, ys, e2[1], e2[2]):
            return
        g = lambda *a: (f(*a[:n]).sum(1) * e2[0].H(*a[n:], full=True).sum(1))[:, None]
        got = np.asarray(J(egrad(g, j))(*x, *y))
        d2 = [1 if k + n == j else 0 for k in range(cfg2["kind"])]
        A, B = R(*([j] if j < n else [])), objs.refmat(cfg2, ys, d2, True, e2[1], e2[2])
        want = (A[0].sum(1) * B[0].sum(1))[:, None]
        sc = (A[1].sum(1) * B[1].sum(1))[:, None] + 1e-6
    c = np.array(got, copy=True)
    w.kept.append((got, c))
    log.add("ad", i, form, d, full, c)
    bad = ref.close(c, want, sc)
    if bad:
        raise Bad("wrong-matrix", f"derivative form {form}{' compiled' if jit else ''}: {cfg['backend']} {cfg['basis']} dim={cfg['kind']} d={d} by {j} full={full}: {bad}")
    w.count("evaluations_compared")
    w.count("mode.ad." + form + (".jit" if jit else ""))


def _deep(w, op, log):
    import jax
    import numpy as np
    from tfc.utils import egrad

    from .. import objs

    _, i, d, ups, full, p, jit = op
    e = _need(w, i)
    o, cfg = e[0], w.cfgs[i]
    if objs.cx(cfg):
        return
    x = _x(o, cfg, p)
    meth = getattr(o, objs.method(cfg, d))
    f = lambda *a: meth(*a, full=full)
    dd = list(d)
    xs = [np.array(v) for v in x]
    safe = objs.relu_safe(cfg, xs, e[1], e[2])
    for k, j in enumerate(ups):
        f = egrad(f, j)
        dd[j] += 1
        if (jit or cfg["backend"] != "C++") and k + 1 < len(ups):
            continue
        r = _keep(w, (jax.jit(f) if jit else f)(*x))
        log.add("deep", i, dd, full, r)
        if safe:
            objs.compare(cfg, r, xs, dd, full, e[1], e[2], "repeated derivative")
            w.count("evaluations_compared")
            w.count("mode.deep")
            w.count(f"order.{sum(dd)}")


def _orders(w, op, log):
    import numpy as np

    from .. import objs

    _, i, ds, full, p = op
    e = _need(w, i)
    o, cfg = e[0], w.cfgs[i]
    x = [np.array(v) for v in _x(o, cfg, p)]
    if not objs.relu_safe(cfg, x, e[1], e[2]):
        return
    for d in ds:
        h = ("C",) + LAYS
        h = h[(sum(d) + len(ds) + i) % len(h)]
        if cfg["kind"] == 1:
            r = o.basisClass.H(lay(x[0], h), d[0], full)
        else:
            r = o.basisClass.H(lay(np.array(x), h), lay(np.array(d, np.int32), h), full)
        r = _keep(w, r)
        log.add("orders", i, d, full, r)
        objs.compare(cfg, r, x, d, full, e[1], e[2], "basis of the object")
        w.count("evaluations_compared")
        w.count("mode.basis")
        if cfg["basis"] in objs.ELM and cfg["backend"] == "C++":
            w.count(f"elm_order.{sum(d)}")


def _keep(w, r):
    import numpy as np

    c = np.array(r, copy=True)
    w.kept.append((r, c))
    return c


def _apply(w, op, log, fns):
    import gc

    import jax
    import numpy as np

    from .. import objs, ref, sched

    k = op[0]
    if k == "new":
        _new(w, op[1])
    elif k == "ev":
        _eval(w, op, log)
    elif k == "ad":
        _ad(w, op, log)
    elif k == "deep":
        _deep(w, op, log)
    elif k == "orders":
        _orders(w, op, log)
    elif k == "setw":
        e = _need(w, op[1])
        objs.setw(e[0], w.cfgs[op[1]], op[2], op[3])
        e[1], e[2] = op[2], op[3]
    elif k == "compile":
        _, fid, i, d, full, p = op
        e = _need(w, i)
        cfg = w.cfgs[i]
        x = _x(e[0], cfg, p)
        meth = getattr(e[0], objs.method(cfg, d))
        fn = jax.jit(lambda *a: meth(*a, full=full))
        fns[fid] = (fn, e, cfg, d, full, x)
        _call(w, fns[fid], log)
    elif k == "call":
        if op[1] in fns:
            w.count("earlier_compiled_calls")
            _call(w, fns[op[1]], log)
    elif k == "bad":
        _bad(op[1])
        w.count("fault.failed_construction")
    elif k == "regfail":
        _regfail(w, op[1])
    elif k == "int":
        try:
            with sched.Interrupt(op[1]) as it:
                _apply(w, op[2], log, fns)
        except sched.Interrupted:
            pass
        if it.fired:
            w.count("fault.interrupt")
    elif k == "gc":
        gc.collect()
    elif k == "clear":
        jax.clear_caches()
        w.count("cache_clears")
    elif k == "drop":
        w.objs.pop(op[1], None)
        gc.collect()
        w.count("drops")
    elif k == "hybrid":
        _hybrid(w, op, log)
    elif k == "raw":
        _raw(w, op, log)
    else:
        raise AssertionError(op)


def _call(w, f, log):
    import numpy as np

    from .. import objs

    fn, e, cfg, d, full, x = f
    r = _keep(w, fn(*x))
    log.add("call", r)
    xs = [np.asarray(v) for v in x]
    if objs.relu_safe(cfg, xs, e[1], e[2]):
        objs.compare(cfg, r, xs, d, full, e[1], e[2], "compiled earlier")
        w.count("evaluations_compared")


def _hybrid(w, op, log):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from tfc import HybridUtfc
    from tfc.utils import egrad

    from .. import objs, ref

    _, ids, d, full, mode = op
    es, cfgs = [_need(w, i) for i in ids], [w.cfgs[i] for i in ids]
    if len({c["N"] for c in cfgs}) > 1 or any(objs.cx(c) for c in cfgs):
        return
    if d == 8 and any(c["backend"] == "Python" and c["basis"] in objs.ELM for c in cfgs):
        d = 4
    if mode.startswith("egrad"):
        d = min(d, 1)
    if mode.endswith("jit") and any(c["backend"] != "C++" for c in cfgs):
        mode = mode[:-3] or "eager"
    h = HybridUtfc([e[0] for e in es])
    x = jnp.array(objs.pts(cfgs[0], [0.1, 0.5, 0.9])[0])
    meth = getattr(h, {0: "H", 1: "dH", 2: "d2H", 3: "d3H", 4: "d4H", 8: "d8H"}[d])
    f = lambda x: meth(x, full=full)
    if mode.startswith("egrad"):
        f, d = egrad(f), d + 1
    if mode.endswith("jit"):
        f = jax.jit(f)
    r = _keep(w, f(x))
    log.add("hybrid", r)
    xs = [np.asarray(x)]
    R = [objs.refmat(c, xs, [d], full, e[1], e[2]) for c, e in zip(cfgs, es)]
    if not all(objs.relu_safe(c, xs, e[1], e[2]) for c, e in zip(cfgs, es)):
        return
    # outside its own domain a polynomial basis grows: scale by the values themselves too
    F = np.hstack([q[0] for q in R])
    S = np.hstack([q[1] for q in R])
    e = ref.close(r, F, S * 1e3 + np.abs(F) * 1e3)
    if e:
        raise Bad("wrong-matrix", f"hybrid of {' and '.join(c['basis'] for c in cfgs)}, {mode}, d={d}, full={full}: {e}")
    w.count("evaluations_compared")
    w.count("mode.hybrid." + mode)


def _raw(w, op, log):
    """Basis classes used directly, also those no problem class offers."""
    import numpy as np

    from .. import ref

    _, k, d, full, p = op
    c = w.sc["raws"][k]
    nd = isinstance(c["x0"], list)
    if k not in w.raw:
        if c["backend"] == "C++":
            from tfc.utils import BF
        else:
            from tfc.utils import BF_Py as BF
        arr = lambda v, t: lay(np.array(v, t), c["lay"][0])
        nC = arr(c["nC"], np.int32)
        if nd:
            w.raw[k] = getattr(BF, "n" + c["basis"])(arr(c["x0"], float), arr(c["xf"], float), nC, c["deg"] + 1)
        else:
            w.raw[k] = getattr(BF, c["basis"])(c["x0"], c["xf"], nC, c["deg"] + 1)
    x0, xf = np.array(c["x0"]), np.array(c["xf"])
    if nd:
        x = x0[:, None] + np.array([p, p[::-1], p][: len(x0)]) * (xf - x0)[:, None]
        dv = [d, d // 2, d % 2][: len(x0)]
        r = w.raw[k].H(lay(x, c["lay"][1]), np.array(dv, np.int32), full)
        want = ref.HN(c, list(x), dv, full)
    else:
        x = x0 + np.array(p) * (xf - x0)
        r = w.raw[k].H(lay(x, c["lay"][1]), d, full)
        want = ref.H1(c, x, d, full)
    r = _keep(w, r)
    log.add("raw", r)
    e = ref.close(r, *want)
    if e:
        raise Bad("wrong-matrix", f"basis class {c['backend']} {c['basis']} deg={c['deg']} d={d} full={full} arrays {c['lay']}: {e}")
    w.count("evaluations_compared")
    w.count("mode.raw")


def _bad(kind):
    import jax.numpy as jnp

    from tfc import mtfc, utfc

    x = jnp.array([0.1, 0.5, 0.9])
    try:
        if kind == "basis":
            utfc(5, 1, 4, basis="nope", x0=0.0, xf=1.0)
        elif kind == "backend":
            utfc(5, 1, 4, x0=0.0, xf=1.0, backend="Fortran")
        elif kind == "nC":
            utfc(5, 7, 4, x0=0.0, xf=1.0)
        elif kind == "dup":
            utfc(5, [1, 1], 4, x0=0.0, xf=1.0).H(x)
        elif kind == "range":
            utfc(5, [9], 4, x0=0.0, xf=1.0).H(x)
        elif kind in ("mdup", "mrange"):
            mtfc([4, 4], [1, 1] if kind == "mdup" else [9], 4, basis="ELMTanh", x0=[0.0, 0.0], xf=[1.0, 1.0]).H(x, x)
        else:
            mtfc([4, 4], [1, 1], 4, x0=[0.0], xf=[1.0, 1.0])
    except (SystemExit, Exception):
        return
    # accepting these is input validation, not this property; harming other objects' memory is


class RegFail(Exception):
    pass


def _regfail(w, i):
    import jax.ffi

    import sys

    U, M = sys.modules["tfc.utfc"], sys.modules["tfc.mtfc"]

    def boom(*a, **k):
        raise RegFail("injected registration failure")

    saved = [(m, getattr(m, "register_ffi_target")) for m in (U, M, jax.ffi) if hasattr(m, "register_ffi_target")]
    for m, _ in saved:
        m.register_ffi_target = boom
    try:
        from .. import objs

        objs.build(w.cfgs[i])
    except RegFail:
        w.count("fault.registration_failure")
    finally:
        for m, f in saved:
            m.register_ffi_target = f


def run(sc):
    from .. import native, sched

    counters = {}
    w = World(sc, counters)
    log = Log()
    v = None
    native.begin_run()
    try:
        fns = {}
        for op in sc["pre"]:
            _guard(w, op, log, fns)
        if len(sc["threads"]) == 1:
            for op in sc["threads"][0]:
                _guard(w, op, log, fns)
        else:
            s = sched.Sched(sc["plan"])
            logs = [Log() for _ in sc["threads"]]

            def body(k):
                f = {}
                for op in sc["threads"][k]:
                    _guard(w, op, logs[k], f)

            res = s.run([lambda k=k: body(k) for k in range(len(sc["threads"]))])
            for q in logs:
                log.add(q.digest())
            log.add(s.trace)
            counters["thread_switches"] = s.switches
            counters["threaded_runs"] = 1
            if s.free:
                counters["schedules_released"] = 1
            for r in res:
                if r[0] == "exc":
                    raise r[1]
        for op in sc.get("post", []):
            _guard(w, op, log, fns)
        _end(w)
        e = native.error()
        if e:
            raise Bad("native-memory", e)
    except Bad as b:
        v = b.v
    finally:
        w.kept.clear()
    log.add(v and v["class"])
    ok = counters.get("objects", 0) >= 2 and counters.get("evaluations_compared", 0) >= 3
    return v, {
        "counters": counters,
        "digest": log.digest(),
        "sig": sig(sc) if ok else None,
        "sample": {"objects": [[c["backend"], c["basis"], c["kind"]] for c in sc["cfgs"]], "threads": sc["threads"], "plan": sc["plan"][:6]},
    }


def _guard(w, op, log, fns):
    try:
        _apply(w, op, log, fns)
    except Bad:
        raise
    except (Exception, SystemExit) as e:
        raise Bad("exception", f"{op[:2]}: {type(e).__name__}: {e}")


def _end(w):
    import numpy as np

    from .. import objs

    for r, c in w.kept:
        if not np.array_equal(np.asarray(r), c, equal_nan=True):
            raise Bad("returned-matrix-changed", "a matrix returned earlier changed its contents later")
    for i, e in list(w.objs.items()):
        objs.check_points(e[0], w.cfgs[i])
