"""Problem objects: random configurations, construction through the public API, reference evaluation."""
import math

import numpy as np

from . import ref
from .util import Bad, rnd

ELM = ["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish", "ELMReLU"]
POLY = ["CP", "LeP", "FS"]
D1 = {0: "H", 1: "dH", 2: "d2H", 4: "d4H", 8: "d8H"}
DN = {
    (0, 0): "H", (1, 0): "Hx", (0, 1): "Hy", (1, 1): "Hxy", (2, 0): "Hx2", (0, 2): "Hy2", (2, 1): "Hx2y",
}
DN3 = {(0, 0, 0): "H", (1, 0, 0): "Hx", (0, 1, 0): "Hy", (0, 0, 1): "Hz", (1, 1, 0): "Hxy", (2, 0, 0): "Hx2",
       (0, 2, 0): "Hy2", (2, 1, 0): "Hx2y"}


def gen_cfg(rng, backend=None, kind=None, elm=None, small=False, cplx=False):
    kind = kind or rng.choice([1, 1, 1, 2, 2, 3])
    backend = backend or rng.choice(["C++", "C++", "C++", "Python"])
    if elm is None:
        elm = rng.random() < 0.4
    basis = rng.choice(ELM if elm else POLY)
    cfg = {"kind": kind, "backend": backend, "basis": basis}
    if kind == 1:
        cfg["N"] = rng.choice([2, 3, 5, 8, 13])
        cfg["deg"] = rng.choice([0, 1, 1, 2, 2, 3, 3, 5, 5, 8, 8, 12]) if not small else rng.choice([2, 3, 4])
        x0 = rnd(rng, -2, 2)
        cfg["x0"], cfg["xf"] = x0, round(x0 + rng.choice([0.5, 1.0, 1.5, 3.0]), 3)
        if rng.random() < 0.5:
            cfg["nCarg"] = rng.randint(0, min(3, cfg["deg"]))
            cfg["nC"] = list(range(cfg["nCarg"]))
        else:
            k = rng.randint(min(1, cfg["deg"]), min(3, cfg["deg"]))
            cfg["nCarg"] = cfg["nC"] = rng.sample(range(cfg["deg"] + 1), k) if k else 0
            if not k:
                cfg["nC"] = []
        if elm:
            seedw(rng, cfg, 1)
    else:
        cfg["n"] = [rng.choice([2, 3, 4]) for _ in range(kind)]
        cfg["deg"] = rng.choice([2, 3, 4, 5]) if kind == 2 else rng.choice([2, 3])
        cfg["x0"] = [rnd(rng, -2, 2) for _ in range(kind)]
        cfg["xf"] = [round(a + rng.choice([0.5, 1.0, 2.0]), 3) for a in cfg["x0"]]
        if elm:
            if rng.random() < 0.5:
                cfg["nCarg"] = rng.randint(0, min(3, cfg["deg"]))
                cfg["nC"] = list(range(cfg["nCarg"]))
            else:
                k = rng.randint(1, min(3, cfg["deg"]))
                cfg["nCarg"] = cfg["nC"] = rng.sample(range(cfg["deg"] + 1), k)
            seedw(rng, cfg, kind)
        else:
            cfg["nCarg"] = [rng.randint(1, 2) if k == 0 else rng.randint(0, 2) for k in range(kind)]
            cfg["nC"] = [list(range(k)) for k in cfg["nCarg"]]
            r = rng.random()
            if r < 0.3:
                # the functions to remove given one by one in some dimensions
                for k in range(kind):
                    if rng.random() < 0.6:
                        cfg["nCarg"][k] = cfg["nC"][k] = rng.sample(range(cfg["deg"] + 1), rng.choice([1, 2]))
            elif r < 0.4:
                q = rng.choice([1, 2])
                cfg["nCarg"] = cfg["nC"] = [rng.sample(range(cfg["deg"] + 1), q) for _ in range(kind)]
    if not isinstance(cfg["nCarg"], int) and (all(isinstance(k, int) for k in cfg["nCarg"]) or all(isinstance(k, list) for k in cfg["nCarg"])):
        cfg["nCform"] = rng.choice(["list", "list", "jax", "numpy", "tuple"])
        if len({len(k) for k in cfg["nCarg"] if isinstance(k, list)}) > 1 and cfg["nCform"] in ("jax", "numpy"):
            cfg["nCform"] = "list"  # rows of several lengths make no array
    if cplx and backend == "Python" and rng.random() < 0.3:
        cfg["cplx"] = rng.choice([0.1, 0.25, 0.4])
    return cfg


def cx(cfg):
    """Size of the imaginary parts: the Python backend also serves complex problems."""
    return cfg.get("cplx", 0) if cfg["backend"] == "Python" and cfg["basis"] != "ELMReLU" else 0


def dom(cfg, k=None):
    """Start and end of the domain (of dimension k), complex for complex problems."""
    x0, xf = (cfg["x0"], cfg["xf"]) if k is None else (cfg["x0"][k], cfg["xf"][k])
    e = cx(cfg)
    return (complex(x0, 0), complex(xf, e / 2)) if e else (x0, xf)


def doms(cfg):
    if cfg["kind"] == 1:
        return dom(cfg)
    p = [dom(cfg, k) for k in range(cfg["kind"])]
    return [a for a, _ in p], [b for _, b in p]


def seedw(rng, cfg, dim):
    m = cfg["deg"] + 1
    cfg["w"] = [rnd(rng, -2, 2) for _ in range(m * dim)]
    cfg["b"] = [rnd(rng, -2, 2) for _ in range(m)]


def derivs(cfg):
    """Derivative orders offered by public methods for this configuration."""
    if cfg["kind"] == 1:
        ds = [0, 1, 2, 4]
        if not (cfg["backend"] == "Python" and cfg["basis"] in ELM):
            ds.append(8)
        return [[d] for d in ds]
    return [list(d) for d in (DN if cfg["kind"] == 2 else DN3)]


def method(cfg, d):
    if cfg["kind"] == 1:
        return D1[d[0]]
    return (DN if cfg["kind"] == 2 else DN3)[tuple(d)]


def nCarg(cfg):
    """The caller's description of the functions to remove, in the form he uses."""
    nC = cfg["nCarg"]
    if isinstance(nC, int):
        return nC
    how = cfg.get("nCform")
    if how == "jax":
        import jax.numpy as jnp

        return jnp.array(nC)
    if how == "numpy":
        return np.array(nC)
    if how == "tuple":
        return tuple(tuple(k) if isinstance(k, list) else k for k in nC)
    return [list(k) if isinstance(k, list) else k for k in nC]


def build(cfg):
    from tfc import mtfc, utfc

    if cfg.get("mut"):
        return build_mut(cfg)
    nC = nCarg(cfg)
    x0, xf = doms(cfg)
    if cfg["kind"] == 1:
        o = utfc(cfg["N"], nC, cfg["deg"], basis=cfg["basis"], x0=x0, xf=xf, backend=cfg["backend"])
    else:
        o = mtfc(
            list(cfg["n"]), nC, cfg["deg"], dim=cfg["kind"], basis=cfg["basis"],
            x0=x0, xf=xf, backend=cfg["backend"],
        )
    if cfg["basis"] in ELM:
        setw(o, cfg, cfg["w"], cfg["b"])
    return o


def build_mut(cfg):
    """Like build, but every argument that can be changed is changed afterwards."""
    from tfc import mtfc, utfc

    nC = nCarg(dict(cfg, nCform="numpy" if cfg.get("nCform") == "numpy" else "list"))
    kw = {"basis": cfg["basis"], "backend": cfg["backend"]}
    if cfg["kind"] == 1:
        mut = [nC]
        x0, xf = doms(cfg)
        o = utfc(cfg["N"], nC, cfg["deg"], x0=x0, xf=xf, **kw)
    else:
        n, x0, xf = np.array(cfg["n"]), *(np.array(v) for v in doms(cfg))
        mut = [nC, n, x0, xf]
        o = mtfc(n, nC, cfg["deg"], dim=cfg["kind"], x0=x0, xf=xf, **kw)
    for a in mut:
        if not isinstance(a, int):
            if isinstance(a, np.ndarray):
                a[...] = 2
            else:
                a[:] = [2] * len(a)
    if cfg["basis"] in ELM:
        setw(o, cfg, cfg["w"], cfg["b"])
    return o


def warr(cfg, w):
    m = cfg["deg"] + 1
    w = cval(cfg, w)
    return w.reshape((cfg["kind"], m)) if cfg["kind"] > 1 else w


def cval(cfg, v):
    e = cx(cfg)
    v = np.array(v, float)
    return v * (1 + 1j * e) if e else v


def setw(o, cfg, w, b):
    o.basisClass.w = warr(cfg, w)
    o.basisClass.b = cval(cfg, b)


def refmat(cfg, x, d, full, w=None, b=None):
    if cx(cfg):
        if w is not None:
            w, b = cval(cfg, w), cval(cfg, b)
        x0, xf = doms(cfg)
        cfg = dict(cfg, x0=x0, xf=xf)
    if cfg["kind"] == 1:
        return ref.H1(cfg, x[0], d[0], full, w, b)
    return ref.HN(cfg, x, d, full, w, b)


def refpoints(cfg):
    z0, zf = ref.zdom(cfg["basis"])
    if cfg["kind"] == 1:
        n, x0, xf = [cfg["N"]], *([v] for v in doms(cfg))
    else:
        n, x0, xf = cfg["n"], *doms(cfg)
    out = []
    for k in range(len(n)):
        if cfg["basis"] in ("CP", "LeP"):
            i = np.arange(n[k])
            z = np.cos(np.pi * (n[k] - 1 - i) / (n[k] - 1))
        else:
            z = np.linspace(z0, zf, n[k])
        x = (z - z0) * (xf[k] - x0[k]) / (zf - z0) + x0[k]
        out.append(np.tile(np.repeat(x, int(np.prod(n[k + 1 :]))), int(np.prod(n[:k]))))
    return out


def pts(cfg, spec):
    """spec: list of fractions of the domain, shared by all dimensions with a rotation."""
    x0 = [cfg["x0"]] if cfg["kind"] == 1 else cfg["x0"]
    xf = [cfg["xf"]] if cfg["kind"] == 1 else cfg["xf"]
    out = []
    for k in range(cfg["kind"]):
        f = np.array(spec[k % len(spec) :] + spec[: k % len(spec)])
        v = x0[k] + f * (xf[k] - x0[k])
        out.append(v + 1j * cx(cfg) * (f - 0.4) if cx(cfg) else v)
    return out


def relu_safe(cfg, x, w, b):
    """ReLU is not differentiable at its kink: points too close to one are not compared."""
    if cfg["basis"] != "ELMReLU":
        return True
    z0, zf = 0.0, 1.0
    m = cfg["deg"] + 1
    k = cfg["kind"]
    W = np.array(w, float).reshape(k, m)
    x0 = [cfg["x0"]] if k == 1 else cfg["x0"]
    xf = [cfg["xf"]] if k == 1 else cfg["xf"]
    a = np.array(b, float)[None, :]
    for j in range(k):
        a = a + ((np.asarray(x[j]) - x0[j]) / (xf[j] - x0[j]))[:, None] * W[j : j + 1]
    return bool(np.all(np.abs(a) > 1e-6))


def check_points(o, cfg):
    got = [np.asarray(o.x)] if cfg["kind"] == 1 else [np.asarray(v) for v in o.x]
    for g, r in zip(got, refpoints(cfg)):
        if g.shape != r.shape or not np.allclose(g, r, rtol=1e-11, atol=1e-11):
            raise Bad("points", f"collocation points of {cfg['basis']} differ from the definition")


def compare(cfg, got, x, d, full, w, b, what, out=False):
    R, S = refmat(cfg, x, d, full, w, b)
    if out:
        # the points may lie outside the domain, where the functions grow
        S = (S + np.abs(R)) * 1e3
    e = ref.close(got, R, S)
    if e:
        raise Bad(
            "wrong-matrix",
            f"{what}: {cfg['backend']} {cfg['basis']} dim={cfg['kind']} deg={cfg['deg']} d={d} full={full}: {e}",
        )
