"""Independent reference for basis-function matrices: a plain numpy function of an object's own definition.

No state, no history: this is the executable model the simulated executions are compared with.
"""
import math

import numpy as np
from numpy.polynomial import chebyshev as C
from numpy.polynomial import legendre as L
from numpy.polynomial import polynomial as P

RAW = {"LaP": np.polynomial.Laguerre, "HoPpro": np.polynomial.HermiteE, "HoPphy": np.polynomial.Hermite}
ZDOM = {"CP": (-1.0, 1.0), "LeP": (-1.0, 1.0), "FS": (-math.pi, math.pi)}


def zdom(basis):
    return ZDOM.get(basis, (0.0, 1.0))


def _poly(mod, z, m, d):
    """(values, scale) of the first m polynomials' d-th derivative at z."""
    F = np.zeros((z.size, m), z.dtype)
    S = np.zeros(m)
    cplx = np.iscomplexobj(z)
    SC = np.zeros((z.size, m))
    for j in range(m):
        c = np.zeros(j + 1)
        c[j] = 1.0
        if d:
            dv = getattr(mod, "chebder" if mod is C else "legder")(c, d)
        else:
            dv = c
        ev = getattr(mod, "chebval" if mod is C else "legval")
        F[:, j] = ev(z, dv)
        S[j] = max(1.0, abs(ev(1.0, dv)))
        if cplx:
            SC[:, j] = S[j] + P.polyval(np.abs(z), np.abs(getattr(mod, "cheb2poly" if mod is C else "leg2poly")(dv)))
    if cplx:
        return F, SC
    return F, np.broadcast_to(S, F.shape)


def _fs(z, m, d):
    F = np.zeros((z.size, m), z.dtype)
    S = np.ones((z.size, m))
    F[:, 0] = 1.0 if d == 0 else 0.0
    for j in range(1, m):
        g = (j + 1) // 2
        ph = d * math.pi / 2
        base = np.cos if j % 2 == 0 else np.sin
        # derivative shifts the phase by pi/2; evaluate without the rounding of pi
        k = d % 4
        s, c = np.sin(g * z), np.cos(g * z)
        seq = [s, c, -s, -c]
        val = seq[(k + (0 if base is np.sin else 1)) % 4]
        F[:, j] = g**d * val
        S[:, j] = g**d * np.cosh(g * np.imag(z))
    return F, S


_sigp = {}


def _sig_poly(d):
    if d not in _sigp:
        p = np.array([0.0, 1.0])
        for _ in range(d):
            p = P.polymul(P.polyder(p), [0.0, 1.0, -1.0])
        _sigp[d] = p
    return _sigp[d]


_tanhp = {}


def _tanh_poly(d):
    if d not in _tanhp:
        p = np.array([0.0, 1.0])
        for _ in range(d):
            p = P.polymul(P.polyder(p), [1.0, 0.0, -1.0])
        _tanhp[d] = p
    return _tanhp[d]


def _act(name, a, d):
    """(d-th derivative of the activation at a, scale)."""
    if name == "ELMSin":
        s, c = np.sin(a), np.cos(a)
        return [s, c, -s, -c][d % 4], np.ones_like(a) * (1 + np.abs(a))
    if name == "ELMReLU":
        if d == 0:
            return np.maximum(0.0, a), 1 + np.abs(a)
        if d == 1:
            return np.where(a > 0.0, 1.0, 0.0), np.ones_like(a)
        return np.zeros_like(a), np.ones_like(a)
    if name == "ELMTanh":
        t = np.tanh(a)
        p = _tanh_poly(d)
        return P.polyval(t, p), P.polyval(np.abs(t), np.abs(p)) + np.abs(p).sum() * 1e-3
    s = 1.0 / (1.0 + np.exp(-a))
    p = _sig_poly(d)
    v, sc = P.polyval(s, p), P.polyval(np.abs(s), np.abs(p)) + np.abs(p).sum() * 1e-3
    if name == "ELMSigmoid":
        return v, sc
    # swish: a*sigmoid(a)
    if d == 0:
        return a * s, 1 + np.abs(a)
    q = _sig_poly(d - 1)
    v2 = P.polyval(s, q)
    sc2 = P.polyval(np.abs(s), np.abs(q)) + np.abs(q).sum() * 1e-3
    return d * v2 + a * v, d * sc2 + np.abs(a) * sc


def _dt(cfg):
    x = cfg["x0"][0] if isinstance(cfg["x0"], list) else cfg["x0"]
    return complex if isinstance(x, complex) else float


def removed_1d(nC, m):
    return set(int(k) for k in nC)


def H1(cfg, x, d, full, w=None, b=None):
    """cfg: dict(basis,nC(list of removed indices),deg,x0,xf). Returns (matrix, tolerance scale)."""
    z0, zf = zdom(cfg["basis"])
    m = cfg["deg"] + 1
    c = (zf - z0) / (cfg["xf"] - cfg["x0"])
    z = (np.asarray(x, _dt(cfg)) - cfg["x0"]) * c + z0
    if cfg["basis"] == "CP":
        F, S = _poly(C, z, m, d)
    elif cfg["basis"] == "LeP":
        F, S = _poly(L, z, m, d)
    elif cfg["basis"] == "FS":
        F, S = _fs(z, m, d)
    elif cfg["basis"] in RAW:
        # no domain mapping
        z, c = np.asarray(x, float), 1.0
        F, S = np.zeros((z.size, m)), np.zeros((z.size, m))
        for j in range(m):
            q = RAW[cfg["basis"]].basis(j).deriv(d) if d else RAW[cfg["basis"]].basis(j)
            F[:, j] = q(z)
            mono = q.convert(kind=np.polynomial.Polynomial, domain=[-1, 1], window=[-1, 1])
            S[:, j] = P.polyval(np.abs(z), np.abs(mono.coef)) + 1e-3
    else:
        w = np.asarray(w, _dt(cfg)).reshape(1, m)
        b = np.asarray(b, _dt(cfg)).reshape(1, m)
        a = z[:, None] * w + b
        F, S = _act(cfg["basis"], a, d)
        F, S = F * w**d, (S + 1e-6) * np.abs(w) ** d * (1 + np.abs(a) * 10)
    F, S = F * c**d, np.abs(c) ** d * S
    if not full:
        keep = [j for j in range(m) if j not in removed_1d(cfg["nC"], m)]
        F, S = F[:, keep], S[:, keep]
    return F, S


def HN(cfg, x, d, full, w=None, b=None):
    """cfg: dict(basis,nC(list per dimension, or list of removed indices for ELMs),deg,x0[],xf[])."""
    dim = len(cfg["x0"])
    m = cfg["deg"] + 1
    z0, zf = zdom(cfg["basis"])
    c = [(zf - z0) / (cfg["xf"][k] - cfg["x0"][k]) for k in range(dim)]
    z = [(np.asarray(x[k], _dt(cfg)) - cfg["x0"][k]) * c[k] + z0 for k in range(dim)]
    d = list(d) + [0] * (dim - len(d))
    if cfg["basis"].startswith("ELM"):
        w = np.asarray(w, _dt(cfg)).reshape(dim, m)
        b = np.asarray(b, _dt(cfg)).reshape(1, m)
        a = sum(z[k][:, None] * w[k : k + 1] for k in range(dim)) + b
        tot = sum(d)
        F, S = _act(cfg["basis"], a, tot)
        mul = np.ones((1, m))
        for k in range(dim):
            mul = mul * (w[k : k + 1] * c[k]) ** d[k]
        F, S = F * mul, (S + 1e-6) * np.abs(mul) * (1 + np.abs(a) * 10)
        if not full:
            keep = [j for j in range(m) if j not in set(cfg["nC"])]
            F, S = F[:, keep], S[:, keep]
        return F, S
    Ts, Ss = [], []
    for k in range(dim):
        f = {"CP": lambda z, n: _poly(C, z, m, n), "LeP": lambda z, n: _poly(L, z, m, n), "FS": lambda z, n: _fs(z, m, n)}[
            cfg["basis"]
        ]
        T, S = f(z[k], d[k])
        Ts.append(T * c[k] ** d[k])
        Ss.append(S * abs(c[k]) ** d[k])
    cols, scs = [], []

    def rec(k, vec):
        if k < 0:
            if sum(vec) > m - 1:
                return
            if not full and all(vec[j] in cfg["nC"][j] for j in range(dim)):
                return
            f = np.ones(z[0].size, z[0].dtype)
            s = np.ones(z[0].size)
            for j in range(dim):
                f = f * Ts[j][:, vec[j]]
                s = s * Ss[j][:, vec[j]]
            cols.append(f)
            scs.append(s)
            return
        for v in range(m):
            vec[k] = v
            rec(k - 1, vec)

    rec(dim - 1, [0] * dim)
    if not cols:
        return np.zeros((z[0].size, 0)), np.ones((z[0].size, 0))
    return np.array(cols).T, np.array(scs).T


def close(got, ref, scale, rtol=1e-9):
    got = np.asarray(got)
    if got.shape != ref.shape:
        return f"shape {got.shape}, expected {ref.shape}"
    if got.size == 0:
        return None
    if not np.all(np.isfinite(got)):
        return "non-finite values"
    err = np.abs(got - ref)
    bad = err > rtol * scale + 1e-300
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return f"entry ({i},{j}) is {got[i, j]!r}, expected {ref[i, j]!r}"
    return None
