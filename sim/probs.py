"""Least-squares problems with an independent numpy reference: residuals over unknowns of every supported container."""
import numpy as np

from .util import Bad, rnd

KINDS = ["np", "jax", "dict", "dictnp", "rob", "robnp"]


def gen(rng, nl=None, kinds=KINDS, cplx=False):
    nl = rng.random() < 0.5 if nl is None else nl
    kind = rng.choice(kinds)
    m = rng.choice([2, 3, 4]) if not kind.startswith("rob") else rng.choice([5, 6])
    n = m + rng.choice([0, 0, 1, 3])
    u = [rnd(rng, -1, 1) or 0.25 for _ in range(m)]
    p = {"nl": nl, "kind": kind, "m": m, "n": n, "u": u, "s": rnd(rng, 0.5, 2), "g": rnd(rng, 0.05, 0.4) if nl else 0.0}
    p["x"] = [round(-0.97 + 1.94 * (i + rng.random() * 0.5) / n, 4) for i in range(n)]
    p["noise"] = [] if nl or rng.random() < 0.5 else [rnd(rng, -0.3, 0.3) for _ in range(n)]
    p["cplx"] = cplx
    # unknowns of very different influence
    p["cs"] = [1.0] * m
    if not p["noise"] and rng.random() < 0.25:
        p["cs"][rng.randrange(m)] = rng.choice([1e-3, 1e-4, 1e-4 if nl else 1e3])
    # how the third argument is passed: arguments may be arrays, Python numbers or containers
    p["sform"] = rng.choice(["arr", "arr", "float", "int", "dict", "tuple"])
    if p["sform"] == "int":
        p["s"] = rng.choice([1, 2])
    p["guess"] = [rnd(rng, -0.15, 0.15) for _ in range(m)]
    return p


def V(np_, x, m):
    return np_.stack([np_.cos(j * np_.arccos(x)) for j in range(m)], axis=1)


def M(np_, x, p):
    return V(np_, x, p["m"]) * np_.array(p["cs"])


def c_of(p, s=None, shift=0.0):
    x = np.array(p["x"])
    u = np.array(p["u"]) * (1 + shift)
    v = M(np, x, p) @ u
    c = (p["s"] if s is None else s) * v + p["g"] * v**3
    if p["noise"]:
        c = c + np.array(p["noise"])
    return c


def args(p, shift=0.0, s=None, jaxy=True):
    """The residual's arguments after the unknowns: x, c, s."""
    import jax.numpy as jnp

    s = p["s"] if s is None else s
    if p["sform"] == "int":
        s = max(1, round(s))
    a = [np.array(p["x"]), c_of(p, s, shift)]
    if p["cplx"]:
        a[1] = a[1] * (1 + 0.5j)
    f = jnp.array if jaxy else np.array
    a = [f(v) for v in a]
    a.append({"arr": lambda: f([s]), "float": lambda: float(s), "int": lambda: int(s), "dict": lambda: {"w": f(0.25), "s": f(s)}, "tuple": lambda: (f(s), f([1.0, 2.0]))}[p["sform"]]())
    return a


def sval(p, s):
    f = p["sform"]
    return s if f in ("float", "int") else s["s"] if f == "dict" else s[0]


def split(p, v, swap=False):
    """The unknowns' container holding the flat vector v; swap: its keys in the other order."""
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    v = np.array(v, dtype=complex if p["cplx"] else float)
    k = p["kind"]
    f = np.array if k.endswith("np") else jnp.array
    if k == "np":
        return v
    if k == "jax":
        return jnp.array(v)
    if k.startswith("dict"):
        # keys deliberately not in sorted order
        h = max(1, len(v) // 2)
        cls, d = TFCDict, {"z": f(v[:h]), "a": f(v[h:])}
    else:
        cls, d = TFCDictRobust, {"q": f(v[:4].reshape(2, 2)), "b": f(v[4:])}
    return cls({q: d[q] for q in reversed(d)} if swap else d)


def flat(p, xi, swap=False):
    """Flat numpy vector of a container, checking its type and shapes."""
    from tfc.utils import TFCDict, TFCDictRobust

    k = p["kind"]
    if k in ("np", "jax"):
        a = np.array(xi)
        if a.shape != (p["m"],):
            raise Bad("wrong-structure", f"solution has shape {a.shape}, the guess had ({p['m']},)")
        return a
    cls = TFCDict if k.startswith("dict") else TFCDictRobust
    if type(xi) is not cls:
        raise Bad("wrong-structure", f"solution is a {type(xi).__name__}, the guess was a {cls.__name__}")
    keys = ["z", "a"] if k.startswith("dict") else ["q", "b"]
    if list(xi.keys()) != (keys[::-1] if swap else keys):
        raise Bad("wrong-structure", f"solution has keys {list(xi.keys())}, the guess had {keys[::-1] if swap else keys}")
    parts = [np.array(xi[q]) for q in keys]
    want = [np.array(q).shape for q in split(p, np.zeros(p["m"])).values()]
    if [q.shape for q in parts] != want:
        raise Bad("wrong-structure", f"solution has shapes {[q.shape for q in parts]}, the guess had {want}")
    return np.concatenate([q.ravel() for q in parts])


def vec(p, xi):
    """Flat jax vector of the unknowns, inside the residual."""
    import jax.numpy as jnp

    k = p["kind"]
    if k in ("np", "jax"):
        return xi
    if k.startswith("dict"):
        return jnp.hstack([xi["z"], xi["a"]])
    return jnp.hstack([xi["q"].reshape(-1), xi["b"]])


class InjectedError(Exception):
    pass


def residual(p, hook=None):
    """res(xi, x, c, s); hook() runs at every Python-level (tracing) call."""
    import jax.numpy as jnp

    def res(xi, x, c, s):
        if hook is not None:
            hook()
        v = M(jnp, x, p) @ vec(p, xi)
        return sval(p, s) * v + p["g"] * v**3 - c

    return res


def jacobian(p, f=1.0):
    """The caller's Jacobian; with f != 1 a deliberately scaled one, whose steps are 1/f of the exact ones."""
    import jax.numpy as jnp

    def J(xi, x, c, s):
        A = M(jnp, x, p)
        v = A @ vec(p, xi)
        return f * (sval(p, s) + 3 * p["g"] * v**2)[:, None] * A

    return J


def ref_res(p, u, a):
    v = M(np, np.asarray(a[0]), p) @ u
    return float(sval(p, a[2])) * v + p["g"] * v**3 - np.asarray(a[1])


def ref_jac(p, u, a):
    A = M(np, np.asarray(a[0]), p)
    v = A @ u
    return (float(sval(p, a[2])) + 3 * p["g"] * v**2)[:, None] * A


def ref_ls(p, a, u0=None, damp=1.0):
    u = np.zeros(p["m"], dtype=complex if p["cplx"] else float) if u0 is None else np.array(u0)
    return u - damp * np.linalg.pinv(ref_jac(p, u, a)) @ ref_res(p, u, a)


def floor(a):
    """The rounding level of a residual of large terms; no figure below it means anything."""
    c = float(np.max(np.abs(np.array(a[1]))))
    return 0.0 if c <= 100 else 512 * 2.3e-16 * c


def ref_nlls(p, a, u0, tol, maxIter, damp=1.0):
    """Returns solution, iterations, the reported maxima, and whether every stopping decision was clear-cut."""
    u = np.array(u0, dtype=complex if p["cplx"] else float)
    d = np.ones(p["m"])
    it = 0
    rep = []
    clear = not tol or tol > 10 * floor(a)
    while True:
        r, q = np.max(np.abs(ref_res(p, u, a))), np.max(np.abs(d))
        for t in (r, q):
            if tol and 0.2 < t / tol < 5:
                clear = False
            if t < 1e-12:  # at rounding level the comparison with tol is not meaningful
                clear = clear and tol > 1e-11
        if not (r > tol and it < maxIter and q > tol):
            break
        d = damp * (np.linalg.pinv(ref_jac(p, u, a)) @ ref_res(p, u, a))
        u = u - d
        rep.append(float(np.max(np.abs(ref_res(p, u, a)))))
        it += 1
    return u, it, rep, clear


def snapshot(x):
    """Deep copy of an argument for a later unchanged check."""
    if isinstance(x, dict):
        return (type(x).__name__, [(k, np.array(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return np.array(x)


def unchanged(x, s):
    if isinstance(x, dict):
        return (
            type(x).__name__ == s[0]
            and list(x.keys()) == [k for k, _ in s[1]]
            and all(np.array_equal(np.array(x[k]), v) for k, v in s[1])
        )
    if isinstance(x, (list, tuple)):
        return len(x) == len(s) and all(unchanged(a, b) for a, b in zip(x, s))
    return np.array_equal(np.array(x), s)


def close(got, want, tol=1e-7):
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and np.all(np.abs(got - want) <= tol * (1 + np.abs(want)))
