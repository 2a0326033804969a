"""S12: dictionaries of unknowns behave like one vector, through any history of changes, failures, interrupts and readers."""
import copy
import pickle

import numpy as np

from ..util import Bad, Log, drop_each, sig

BUILD = "none"
BATCH = 32
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 1600, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 60000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over 2-4 dictionaries (flat and robust, numpy and jax entries) of item assignment, resizing, "
    "deletion, merging, copying, pickling, arithmetic in and out of place with dictionaries and flat arrays, conversions, "
    "compilation and differentiation, with rejected operations and interrupts at seeded lines, followed by a phase in which "
    "2-3 simulated threads read shared dictionaries and change their own. Non-trivial: at least three results were compared "
    "with the vector model after at least one change; distinct by the scenario."
)
MEASURE = "hash of every dictionary and result after every operation, with every switch of the simulated scheduler"
REAL = ["tfc.utils.TFCDict", "tfc.utils.TFCDictRobust", "jax", "numpy"]
STUB = ["entries still being computed (record whether they were waited for)", "asynchronous interrupt", "thread scheduler"]
ASSUMPTIONS = [
    "a dictionary that is being changed is used by one thread at a time; any number of threads may read one that is not",
    "operands of arithmetic have the keys of the target, and flat operands its total size (other operands must only leave it unchanged when they are rejected)",
]

KEYS = ["a", "b", "xi1", "xi2", 3, "zz"]
SH1 = [[1], [2], [3], [4]]
SHN = [[2], [3], [1], [2, 2], [1, 3], [3, 2], [2, 1, 2], []]


def gen(rng, tier):
    nd = rng.choice([2, 3, 3, 4])
    kind = [rng.choice(["T", "T", "R"]) for _ in range(nd)]
    be = rng.choice(["np", "jax", "mix", "mix"])

    def ent(k, n=None):
        return [k, rng.choice(SH1 if kind_of == "T" else SHN), rng.choice(["np", "jax"]) if be == "mix" else be, rng.randint(0, 99)]

    dicts = []
    for d in range(nd):
        kind_of = kind[d]
        if d and rng.random() < 0.5:
            # same keys and shapes as an earlier dictionary, perhaps in another order
            e = [ent(k) for k in [x[0] for x in dicts[0]["e"]]]
            if kind[0] == kind_of:
                for x, y in zip(e, dicts[0]["e"]):
                    x[1] = y[1]
            if rng.random() < 0.5:
                rng.shuffle(e)
        else:
            e = [ent(k) for k in rng.sample(KEYS, rng.randint(1, 4))]
        dicts.append({"k": kind_of, "e": e})

    def op(d, shared=None):
        nonlocal kind_of
        kind_of = kind[d]
        r = rng.random()
        f = rng.randint(0, 14) if rng.random() < 0.12 and shared is None else None
        src = rng.choice(shared) if shared else rng.randrange(nd)
        if r < 0.34:
            w = rng.choice(["+=", "-=", "+", "-"])
            arg = rng.choice(["dict", "same", "same", "self", "np", "jax", "like", "like", "jit"])
            return ["ar", d, w, arg, src, rng.randint(0, 99), rng.randrange(nd) if shared is None else d, f]
        if r < 0.60:
            w = rng.choice(["set", "set", "resize", "del", "pop", "popitem", "move", "update", "updatel", "setdefault", "ior", "clear" if rng.random() < 0.2 else "update"])
            return ["mut", d, w, [ent(rng.choice(KEYS)) for _ in range(rng.randint(1, 3))], rng.randint(0, 1), f]
        if r < 0.72:
            return ["copy", d, rng.choice(["copy", "ctor", "deep", "pickle", "or", "map", "flat"]), src if kind[src] == kind[d] else d, f]
        if r < 0.80:
            return ["rej", d, rng.choice(["miss", "shape", "flat"]), rng.choice(["+=", "-=", "+", "-"]), rng.randint(0, 9)]
        if r < 0.84:
            return ["poke", d, rng.randint(0, 99)]
        return ["read", d if shared is None else src, rng.choice(["arr", "arr", "dict", "dict", "dictnp", "jitarr", "jitdict", "jac", "grad", "wait"]), rng.randint(0, 99), f]

    ops = [op(rng.randrange(nd)) for _ in range(rng.randint(3, 14))]
    par, plan = [], []
    if rng.random() < 0.6:
        nt = rng.choice([2, 2, 3])
        nt = min(nt, nd)
        sh = [nd - 1] if nt < nd else []
        for t in range(nt):
            q = []
            for _ in range(rng.randint(1, 4)):
                if sh and rng.random() < 0.7:
                    if rng.random() < 0.6:
                        q.append(["read", sh[0], rng.choice(["arr", "dict", "dict", "dictnp"]), rng.randint(0, 99), None])
                    else:
                        q.append(["ar", sh[0], rng.choice("+-"), rng.choice(["np", "jax", "like", "self"]), sh[0], rng.randint(0, 99), None, None])
                else:
                    q.append(op(t, sh or [t]))
            par.append(q)
        plan = [[rng.choice([0, 1, 2, 3, 5, 8, 13]), rng.randint(0, 5)] for _ in range(rng.randint(4, 30))]
    return {"d": dicts, "ops": ops, "par": par, "plan": plan}


def shrink(sc):
    if sc["par"]:
        yield dict(sc, par=[], plan=[])
    for c in drop_each(sc["ops"]):
        yield dict(sc, ops=c)
    for t, q in enumerate(sc["par"]):
        for c in drop_each(q):
            yield dict(sc, par=sc["par"][:t] + [c] + sc["par"][t + 1 :])
    for c in drop_each(sc["plan"]):
        yield dict(sc, plan=c)
    for d, x in enumerate(sc["d"]):
        for c in drop_each(x["e"], 1):
            yield dict(sc, d=sc["d"][:d] + [dict(x, e=c)] + sc["d"][d + 1 :])
    for k, o in enumerate(sc["ops"]):
        if o[0] in ("ar", "mut", "copy", "read") and o[-1] is not None:
            yield dict(sc, ops=sc["ops"][:k] + [o[:-1] + [None]] + sc["ops"][k + 1 :])


def setup():
    import warnings

    warnings.simplefilter("ignore")
    import jax
    import jax.numpy as jnp

    from tfc.utils import TFCDict, TFCDictRobust

    from .. import sched

    sched.install()
    global CLS, JNP, JAX, Lazy
    CLS = {"T": TFCDict, "R": TFCDictRobust}
    JNP, JAX = jnp, jax

    class Lazy(np.ndarray):
        """An array whose values are still being computed."""

        def block_until_ready(self):
            WAITED.add(id(self))
            return self


WAITED = set()


def arr(shape, seed):
    n = int(np.prod(shape))
    return np.array([((seed * 7 + i * 5 + seed * i * 3) % 23) - 11 for i in range(n)], dtype=float).reshape(shape)


class M:
    """Model of one dictionary: ordered entries, each a numpy array; fresh = made by arithmetic and shared with nobody."""

    def __init__(self, kind, items=()):
        self.kind = kind
        self.it = dict(items)
        self.fresh = False

    def vec(self):
        return np.concatenate([v.reshape(-1) for v in self.it.values()]) if self.it else np.zeros(0)

    def snap(self):
        m = M(self.kind, self.it)
        m.fresh = self.fresh
        return m


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.d, self.m = [], []
        self.src = []  # every array of the caller ever handed over, with what it must still contain
        for x in sc["d"]:
            self.m.append(M(x["k"], [(k, arr(sh, s)) for k, sh, _, s in x["e"]]))
            self.d.append(CLS[x["k"]]([(k, self.mk(sh, be, s)) for k, sh, be, s in x["e"]]))

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def mk(self, sh, be, seed):
        a = arr(sh, seed)
        if not sh:
            be = "jax"  # numpy turns sums of 0-d arrays into scalars, which are no arrays any more
        if be != "np":
            return JNP.array(a)
        # the same values in different memory layouts
        lay = seed % 5
        if lay == 1:
            v = np.asfortranarray(a)
        elif lay == 2:
            big = np.full([2 * n for n in sh], 77.0)
            v = big[tuple(slice(None, None, 2) for _ in sh)]
            v[...] = a
        elif lay == 3:
            v = a[::-1].copy()[::-1]
        elif lay == 4:
            v = a.T.copy().T
        else:
            v = a
        self.src.append((v, a.copy()))
        return v

    def same(self, d, m, what):
        """Is this dictionary what the model says?"""
        cls = CLS[m.kind]
        if type(d) is not cls:
            raise Bad("type", f"{what}: got a {type(d).__name__}, expected {cls.__name__}")
        if list(d.keys()) != list(m.it.keys()):
            raise Bad("keys", f"{what}: keys {list(d.keys())}, expected {list(m.it.keys())}")
        for k, w in m.it.items():
            v = np.asarray(d[k])
            if v.shape != w.shape or not np.array_equal(v, w):
                raise Bad("value", f"{what}: entry {k!r} is {v.tolist()}, expected {w.tolist()}")
        self.log.add(*[np.asarray(v) for v in d.values()])

    def vec(self, v, w, what):
        v = np.asarray(v)
        if v.shape != w.shape or not np.array_equal(v, w):
            raise Bad("value", f"{what} gives {v.tolist()}, expected {w.tolist()}")
        self.log.add(v)
        self.c("results.compared")

    def check_all(self, what):
        for k, (d, m) in enumerate(zip(self.d, self.m)):
            self.same(d, m, f"after {what}, dictionary {k}")
        for a, w in self.src:
            if not np.array_equal(a, w):
                raise Bad("source", f"after {what}, an array the caller owns holds {a.tolist()} instead of {w.tolist()}")

    def fault(self, f, fn):
        from .. import sched

        if f is None:
            try:
                return "ok", fn()
            except Bad:
                raise
            except Exception as e:  # noqa: BLE001
                return "exc", e
        it = sched.Interrupt(f)
        try:
            with it:
                return "ok", fn()
        except sched.Interrupted:
            self.c("fault.interrupt")
            return "int", it.fired
        except Bad:
            raise
        except Exception as e:  # noqa: BLE001
            return "exc", e

    def operand(self, d, arg, src, seed):
        """(operand, list of model arrays per key of d)"""
        m = self.m[d]
        if arg == "self":
            return self.d[d], {k: v.copy() for k, v in m.it.items()}
        if arg == "same":
            o = self.m[src]
            if set(o.it) == set(m.it) and all(o.it[k].shape == m.it[k].shape for k in m.it):
                return self.d[src], {k: o.it[k].copy() for k in m.it}
            arg = "like"
        vals = {k: arr(v.shape, seed + 3 * n) for n, (k, v) in enumerate(m.it.items())}
        if arg in ("dict", "like", "jit"):
            keys = list(vals)
            if seed % 2:
                keys.reverse()
            be = ["np", "jax"][seed // 2 % 2]
            items = []
            for k in keys:
                a = vals[k].copy()
                isnp = be == "np" and a.ndim > 0
                if isnp:
                    self.src.append((a, vals[k]))
                items.append((k, a if isnp else JNP.array(a)))
            return (dict(items) if arg == "dict" else CLS[m.kind](items)), vals
        flat = np.concatenate([v.reshape(-1) for v in vals.values()]) if vals else np.zeros(0)
        if arg == "np":
            if seed % 3 == 0:
                big = np.zeros(2 * flat.size)
                big[::2] = flat
                flat = big[::2]
            self.src.append((flat, flat.copy()))
            return flat, vals
        return JNP.array(flat), vals

    def step(self, op, what):
        if op[0] == "ar":
            self.arith(op, what)
        elif op[0] == "mut":
            self.mut(op, what)
        elif op[0] == "copy":
            self.cp(op, what)
        elif op[0] == "rej":
            self.rej(op, what)
        elif op[0] == "poke":
            m, d = self.m[op[1]], self.d[op[1]]
            if m.fresh and m.it:
                k = list(m.it)[op[2] % len(m.it)]
                if isinstance(d[k], np.ndarray) and d[k].size and d[k].flags.writeable:
                    d[k][...] = op[2]
                    m.it[k] = np.full(m.it[k].shape, float(op[2]))
                    self.c("pokes")
        else:
            self.read(op, what)

    def arith(self, op, what):
        _, d, w, arg, src, seed, dst, f = op
        m = self.m[d]
        if not m.it and arg not in ("dict", "like", "self"):
            arg = "dict"
        o, vals = self.operand(d, arg, src, seed)
        s = 1.0 if w[0] == "+" else -1.0
        new = {k: np.asarray(v + s * vals[k]) for k, v in m.it.items()}
        x = self.d[d]
        if w in ("+=", "-="):

            def go():
                if w == "+=":
                    y = x
                    y += o
                else:
                    y = x
                    y -= o
                return y

            r = self.fault(f, go)
            if r[0] == "ok":
                if r[1] is not x:
                    raise Bad("identity", f"{what}: in-place arithmetic returned another dictionary")
                m.it = new
                m.fresh = True
                self.c("changes")
            elif r[0] == "int":
                self.adopt(d, dict(m.it), new, what, r[1])
            else:
                raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
            return
        if arg == "jit" and f is None:
            fn = (lambda a, b: a + b) if s > 0 else (lambda a, b: a - b)
            r = self.fault(None, lambda: JAX.jit(fn)(x, o))
        else:
            r = self.fault(f, lambda: x + o if s > 0 else x - o)
        if r[0] == "int":
            return
        if r[0] == "exc":
            raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
        n = M(m.kind, new)
        self.same(r[1], n, f"{what}, result")
        self.c("results.compared")
        if dst is not None and self.m[dst].kind == m.kind:
            n.fresh = arg != "jit"
            self.d[dst], self.m[dst] = r[1], n

    def adopt(self, d, old, new, what, where):
        """After an interrupt every entry is as before or as after."""
        x = self.d[d]
        got = {}
        for k in list(x.keys()):
            v = np.asarray(x[k])
            ok = [w for w in (old.get(k), new.get(k)) if w is not None and w.shape == v.shape and np.array_equal(w, v)]
            if not ok:
                raise Bad("half", f"{what}: after the interrupt at {where} entry {k!r} is {v.tolist()}, neither old nor new")
            got[k] = ok[0]
        for k in set(old) & set(new):
            if k not in got:
                raise Bad("half", f"{what}: after the interrupt at {where} entry {k!r} is gone")
        self.m[d].it = got
        self.m[d].fresh = False

    def mut(self, op, what):
        _, d, w, es, flag, f = op
        m, x = self.m[d], self.d[d]
        k0 = es[0][0]
        vals = {}
        for k, sh, be, s in es:
            vals[k] = (arr(sh, s), self.mk(sh, be, s))
        mod = {k: a for k, (a, _) in vals.items()}
        real = {k: v for k, (_, v) in vals.items()}
        keys = list(m.it)
        old = dict(m.it)
        new = dict(m.it)
        if w == "resize":
            k0n = keys[es[0][3] % len(keys)] if keys else k0
            fn = lambda: x.__setitem__(k0n, real[k0])  # noqa: E731
            new[k0n] = mod[k0]
        elif w == "set":
            fn = lambda: x.__setitem__(k0, real[k0])  # noqa: E731
            new[k0] = mod[k0]
        elif w in ("del", "pop"):
            if not keys:
                return
            kk = keys[es[0][3] % len(keys)]
            fn = (lambda: x.__delitem__(kk)) if w == "del" else (lambda: x.pop(kk))
            del new[kk]
        elif w == "popitem":
            if not keys:
                return
            fn = lambda: x.popitem(last=bool(flag))  # noqa: E731
            del new[keys[-1 if flag else 0]]
        elif w == "move":
            if not keys:
                return
            kk = keys[es[0][3] % len(keys)]
            fn = lambda: x.move_to_end(kk, last=bool(flag))  # noqa: E731
            v = new.pop(kk)
            new = {**new, kk: v} if flag else {kk: v, **new}
        elif w == "update":
            fn = lambda: x.update(real)  # noqa: E731
            new.update(mod)
        elif w == "updatel":
            fn = lambda: x.update(list(real.items()))  # noqa: E731
            new.update(mod)
        elif w == "setdefault":
            fn = lambda: x.setdefault(k0, real[k0])  # noqa: E731
            new.setdefault(k0, mod[k0])
        elif w == "clear":
            fn = lambda: x.clear()  # noqa: E731
            new = {}
        else:

            def fn():
                y = x
                y |= real
                return y

            new.update(mod)
        r = self.fault(f, fn)
        if r[0] == "int":
            self.adopt(d, old, new, what, r[1])
        elif r[0] == "exc":
            raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
        else:
            if w == "ior" and r[1] is not x:
                raise Bad("identity", f"{what}: merging in place returned another dictionary")
            m.it = new
            m.fresh = False
            self.c("changes")

    def cp(self, op, what):
        _, d, w, src, f = op
        m, x = self.m[src], self.d[src]
        if w == "copy":
            fn = x.copy
        elif w == "ctor":
            fn = lambda: CLS[m.kind](x)  # noqa: E731
        elif w == "deep":
            fn = lambda: copy.deepcopy(x)  # noqa: E731
        elif w == "pickle":
            fn = lambda: pickle.loads(pickle.dumps(x))  # noqa: E731
        elif w == "or":
            fn = lambda: x | self.d[d]  # noqa: E731
        elif w == "map":
            fn = lambda: JAX.tree_util.tree_map(lambda a: a + 1.0, x)  # noqa: E731
        else:

            def fn():
                leaves, tree = JAX.tree_util.tree_flatten(x)
                return JAX.tree_util.tree_unflatten(tree, leaves)

        r = self.fault(f, fn)
        if r[0] == "int":
            return
        if r[0] == "exc":
            raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
        n = M(m.kind, m.it)
        if w == "map":
            n.it = {k: np.asarray(v + 1.0) for k, v in n.it.items()}
        elif w == "or":
            n.it.update(self.m[d].it)
        self.same(r[1], n, f"{what}, copy")
        if r[1] is x:
            raise Bad("identity", f"{what}: the copy is the original")
        m.fresh = False
        self.m[d], self.d[d] = n, r[1]
        self.c("results.compared")

    def rej(self, op, what):
        _, d, why, w, n = op
        m, x = self.m[d], self.d[d]
        if not m.it:
            return
        keys = list(m.it)
        k = keys[n % len(keys)]
        o = {q: arr(v.shape, 5) for q, v in m.it.items()}
        if why == "miss":
            del o[k]
        elif why == "flat":
            # all but the last number
            if m.it[keys[-1]].size < 3:
                return
            o = np.concatenate([v.ravel() for v in o.values()])[:-1]
        else:
            if m.it[k].size < 2 or m.it[k].ndim == 0:
                return
            o[k] = arr([m.it[k].shape[-1] + 7], 5)
            if m.it[k].shape[-1] == 1:
                return
        y = x
        try:
            if w == "+=":
                y += o
            elif w == "-=":
                y -= o
            elif w == "+":
                y = x + o
            else:
                y = x - o
        except Exception:  # noqa: BLE001
            self.c("fault.rejected_operand")
            return
        raise Bad("accepted", f"{what}: arithmetic with an operand lacking {k!r}, a number or of another shape was accepted")

    def read(self, op, what):
        _, d, w, seed, f = op
        m, x = self.m[d], self.d[d]
        if not m.it:
            return
        tot = m.vec().size
        flat = arr([tot], seed)
        pieces, p = {}, 0
        for k, v in m.it.items():
            pieces[k] = flat[p : p + v.size].reshape(v.shape).copy()
            p += v.size
        if w == "arr":
            fn = x.toArray
        elif w == "dict":
            fn = lambda: x.toDict(JNP.array(flat))  # noqa: E731
        elif w == "dictnp":
            given = flat.copy() if seed % 2 else np.repeat(flat, 2)[::2]
            fn = lambda: x.toDict(given)  # noqa: E731
        elif w == "jitarr":
            fn = lambda: JAX.jit(lambda a: a.toArray())(x)  # noqa: E731
        elif w == "jitdict":
            fn = lambda: JAX.jit(lambda a, b: a.toDict(b))(x, JNP.array(flat))  # noqa: E731
        elif w == "jac":
            A = arr([2, tot], seed)
            fn = lambda: JAX.jacfwd(lambda a: JNP.array(A) @ a.toArray())(x)  # noqa: E731
        elif w == "grad":
            fn = lambda: JAX.grad(lambda a: (a.toDict(a.toArray() * JNP.array(flat)) + a).toArray().sum())(x)  # noqa: E731
        else:
            lz = CLS[m.kind]([(k, v.copy().view(Lazy)) for k, v in m.it.items()])
            WAITED.clear()
            r = self.fault(f, lz.block_until_ready)
            if r[0] == "exc":
                raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
            if r[0] == "ok":
                if r[1] is not lz:
                    raise Bad("identity", f"{what}: waiting returned another dictionary")
                for k in lz:
                    if id(lz[k]) not in WAITED:
                        raise Bad("wait", f"{what}: entry {k!r} was still being computed when the wait returned")
                r = self.fault(None, x.block_until_ready)
                if r[0] != "ok":
                    raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
                self.c("results.compared")
            return
        r = self.fault(f, fn)
        if r[0] == "int":
            return
        if r[0] == "exc":
            raise Bad("failed", f"{what}: {type(r[1]).__name__}: {r[1]}")
        if w in ("arr", "jitarr"):
            self.vec(r[1], m.vec(), what)
        elif w in ("dict", "dictnp", "jitdict"):
            self.same(r[1], M(m.kind, pieces), what)
            self.vec(r[1].toArray(), flat, what + ", back to an array")
            if w == "dictnp":
                if not np.array_equal(given, flat):
                    raise Bad("source", f"{what}: the array given was changed")
                given[...] = -99.0
                self.same(r[1], M(m.kind, pieces), what + ", then the caller overwrites the array")
                self.c("fault.caller_overwrites_array")
        elif w == "jac":
            if list(r[1].keys()) != list(m.it):
                raise Bad("keys", f"{what}: keys {list(r[1].keys())}")
            p = 0
            for k, v in m.it.items():
                self.vec(r[1][k], A[:, p : p + v.size].reshape([2] + list(v.shape)), f"{what}, block {k!r}")
                p += v.size
        else:
            self.same(r[1], M(m.kind, {k: np.asarray(v + 1.0) for k, v in pieces.items()}), what)
            self.c("results.compared")

    def go(self):
        from .. import sched

        for n, op in enumerate(self.sc["ops"]):
            self.n = n
            what = f"operation {n} {op}"
            self.step(op, what)
            self.check_all(what)
        self.s = None
        if self.sc["par"]:
            s = self.s = sched.Sched(self.sc["plan"])

            def body(q, t):
                def go():
                    for n, op in enumerate(q):
                        self.step(op, f"thread {t} operation {n} {op}")

                return go

            for t, r in enumerate(s.run([body(q, t) for t, q in enumerate(self.sc["par"])])):
                if r[0] == "exc":
                    if isinstance(r[1], Bad):
                        raise r[1]
                    raise Bad("failed", f"thread {t}: {type(r[1]).__name__}: {r[1]}")
            if s.free:
                raise Bad("stall", "simulated threads stalled")
            self.c("switches", s.switches)
            self.c("fault.preemption", s.switches)
            self.check_all("the concurrent phase")
            self.log.add(s.trace)
        for k in range(len(self.d)):
            if self.m[k].it:
                self.read(["read", k, "arr", 1, None], f"final array of dictionary {k}")
                self.read(["read", k, "dict", 2, None], f"final conversion of dictionary {k}")


def run(sc):
    v = None
    r = None
    try:
        r = Run(sc)
        r.go()
    except Bad as e:
        v = e.v
    if r is None:
        return v, {"counters": {}, "digest": None, "sig": None}
    nt = r.cnt.get("results.compared", 0) >= 3 and (r.cnt.get("changes", 0) >= 1 or r.cnt.get("switches", 0) >= 1)
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
