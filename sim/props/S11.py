"""S11: what the symbolic solver returns belongs to the inputs set now, after any history with failures and interrupts."""
from ..util import Bad, Log, drop_each, sig

BUILD = "none"
BATCH = 16
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 960, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 30000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over 1-2 solver objects (sharing operators and lists) of setting the constraint operators, "
    "constraint values, support functions, free function, switching functions or expression, and reading every result, "
    "checking it and printing it as code; operators fail on demand, support functions are dependent or too few at times, and "
    "interrupts hit seeded lines of sets and reads. Non-trivial: at least two reads after at least two sets were compared "
    "with an independent computation; distinct by the scenario."
)
MEASURE = "hash of every value read, every outcome and every interrupted line"
REAL = ["tfc.utils.CeSolver (CeSolver, TfcPrinter)", "sympy"]
STUB = ["constraint operators (seeded, failing on demand)", "asynchronous interrupt (raised at a seeded line)"]
ASSUMPTIONS = ["one solver object is used by one thread at a time", "lists handed to the solver are not changed in place afterwards"]

# operators: value, slope, sum of two values, mean, second derivative
OPS = [["v", 0], ["v", 1], ["v", 2], ["v", -1], ["d", 0], ["d", 1], ["d", 2], ["s", 0, 1], ["s", -1, 2], ["i", 0, 1], ["d2", 0], ["r", 0, 2]]
SUP = ["1", "x", "x**2", "x**3", "2*x", "x+1", "x**2-1", "x**4"]
GS = ["g", "h", "gx"]
READS = ["ce", "ce", "ce", "phi", "phi", "S", "alpha", "rho", "check", "print"]


def gen(rng, tier):
    def inputs(n):
        return {
            "C": rng.sample(range(len(OPS)), n),
            "K": [rng.choice([0, 1, 2, -1, 3, "y", "cos(y)"]) for _ in range(n)],
            "s": rng.sample(SUP[:4], n) if rng.random() < 0.75 else [rng.choice(SUP) for _ in range(n)],
            "g": rng.choice(GS),
        }

    nso = rng.choice([1, 1, 2])
    n0 = rng.choice([1, 2, 2, 3])
    init = [inputs(n0)]
    if nso == 2:
        t = dict(init[0])
        if rng.random() < 0.5:
            t["K"] = inputs(n0)["K"]
        if rng.random() < 0.5:
            t["g"] = rng.choice(GS)
        init.append(t)
    size = [n0] * nso
    now = [dict(t) for t in init]
    ops = []

    def change(o, kk, t):
        # at times the very value that is set already: that, too, is a new setting
        if rng.random() < 0.15 and len(now[o][kk]) == len(t[kk]):
            t = now[o]
        now[o][kk] = t[kk]
        return t[kk]

    for _ in range(rng.randint(4, 14)):
        o = rng.randrange(nso)
        r = rng.random()
        f = None
        q = rng.random()
        if q < 0.12:
            f = ["int", rng.randint(0, 12)]
        elif q < 0.22:
            f = ["op", rng.choice([0, 0, 1, 2, 3, 5])]
        if r < 0.45:
            k = rng.choice(["C", "K", "K", "s", "s", "g", "g", "phi", "ce", "K+g", "C+s"])
            if k in ("phi", "ce"):
                ops.append(["set", o, k, [rng.choice(["x", "1-x", "x**2", "y*x", "2"]) for _ in range(size[o])], f if f and f[0] == "int" else None])
            else:
                t = inputs(size[o])
                for kk in k.split("+"):
                    ops.append(["set", o, kk, change(o, kk, t), f if f and f[0] == "int" else None])
        elif r < 0.52:
            size[o] = rng.choice([1, 2, 3])
            t = inputs(size[o])
            ks = ["C", "K", "s"]
            rng.shuffle(ks)
            for kk in ks:
                ops.append(["set", o, kk, change(o, kk, t), f if f and f[0] == "int" else None])
                if rng.random() < 0.3:
                    ops.append(["get", o, rng.choice(READS), None])
        else:
            ops.append(["get", o, rng.choice(READS), f])
    return {"init": init, "ops": ops}


def shrink(sc):
    for c in drop_each(sc["ops"], 1):
        yield dict(sc, ops=c)
    for k, o in enumerate(sc["ops"]):
        if o[-1]:
            yield dict(sc, ops=sc["ops"][:k] + [o[:-1] + [None]] + sc["ops"][k + 1 :])


class OpFail(Exception):
    pass


class Env:
    armed = None
    fired = False


def setup():
    import warnings

    warnings.simplefilter("ignore")
    import sympy as sp

    import tfc.utils.CeSolver  # noqa: F401
    from tfc.utils import CeSolver  # noqa: F401

    from .. import sched

    sched.install()
    global X, Y, FN, SP, OPF
    SP = sp
    X, Y = sp.symbols("x y")
    FN = {"g": sp.Function("g")(X), "h": sp.Function("h")(X), "gx": sp.Function("g")(X, Y)}

    def mk(d):
        def op(u):
            if Env.armed is not None:
                if Env.armed == 0:
                    Env.armed = None
                    Env.fired = True
                    raise OpFail("operator failed")
                Env.armed -= 1
            return apply(d, u)

        return op

    OPF = [mk(d) for d in OPS]


def apply(d, u):
    sp = SP
    if d[0] == "v":
        return u.subs(X, d[1])
    if d[0] == "d":
        return sp.diff(u, X).subs(X, d[1])
    if d[0] == "d2":
        return sp.diff(u, X, 2).subs(X, d[1])
    if d[0] == "s":
        return u.subs(X, d[1]) + 2 * u.subs(X, d[2])
    if d[0] == "r":
        return u.subs(X, d[1]) - u.subs(X, d[2])
    return sp.integrate(u, (X, d[1], d[2])) if not u.has(SP.core.function.AppliedUndef) else sp.Integral(u, (X, d[1], d[2])).doit()


def ex(v):
    e = SP.sympify(v, locals={"x": X, "y": Y})
    return e


def det0(a, b):
    """Are two expressions equal? Structurally, or else by value: free functions replaced by concrete ones."""
    a, b = SP.sympify(a), SP.sympify(b)
    if a == b or SP.expand(a - b) == 0:
        return True
    d = a - b
    for k, (px, py) in enumerate([("3/7", "5/9"), ("-8/5", "2/3"), ("13/11", "-4/7")]):
        u = d
        conc = {"g": lambda *z: SP.exp(z[0] / 2) * (1 + (z[1] ** 2 if len(z) > 1 else 0)) + z[0] ** (k + 3), "h": lambda *z: SP.cos(z[0]) + z[0] ** 2 / (k + 2)}
        for n, fn in conc.items():
            u = u.replace(SP.Function(n), fn)
        u = u.doit().subs({X: SP.Rational(px), Y: SP.Rational(py)}).doit()
        u = u.evalf(30)
        if not u.is_number or not (abs(u) < SP.Float("1e-14")):
            return False
    return True


class Model:
    """The inputs as last set; results are computed from them afresh."""

    def __init__(self, t):
        self.C, self.K, self.s, self.g = list(t["C"]), [ex(k) for k in t["K"]], [ex(k) for k in t["s"]], FN[t["g"]]
        self.phi_u = self.ce_u = None

    def copy(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        return m

    def set(self, k, v):
        if k == "C":
            self.C, self.phi_u, self.ce_u = list(v), None, None
        elif k == "K":
            self.K, self.ce_u = [ex(a) for a in v], None
        elif k == "s":
            self.s, self.phi_u, self.ce_u = [ex(a) for a in v], None, None
        elif k == "g":
            self.g, self.ce_u = FN[v], None
        elif k == "phi":
            self.phi_u, self.ce_u = SP.Matrix([[ex(a) for a in v]]), None
        else:
            self.ce_u = ex(v[0]) + self.g

    def key(self):
        return repr((self.C, self.K, self.s, self.g, self.phi_u, self.ce_u))

    def S(self):
        return SP.Matrix([[apply(OPS[c], s) for s in self.s] for c in self.C])

    def alpha(self):
        S = self.S()
        if S.rows != S.cols:
            raise ValueError("not square")
        d = SP.simplify(S.det(method="berkowitz"))
        if d == 0:
            raise ValueError("singular")
        return S.adjugate() / d

    def phi(self):
        if self.phi_u is not None:
            return self.phi_u
        return SP.Matrix([self.s]) * self.alpha()

    def rho(self):
        if len(self.K) > len(self.C):
            raise ValueError("sizes")
        return SP.Matrix([k - apply(OPS[self.C[j]], self.g) for j, k in enumerate(self.K)])

    def ce(self):
        if self.ce_u is not None:
            return self.ce_u
        p, r = self.phi(), self.rho()
        if p.cols != r.rows:
            raise ValueError("sizes")
        return self.g + (p * r)[0]


CACHE = {}


def want(m, what):
    k = (m.key(), what)
    if k not in CACHE:
        if len(CACHE) > 4000:
            CACHE.clear()
        try:
            CACHE[k] = (True, getattr(m, what)())
        except ValueError as e:
            CACHE[k] = (False, str(e))
    return CACHE[k]


def eq(a, b):
    if hasattr(a, "shape") or hasattr(b, "shape"):
        return getattr(a, "shape", None) == getattr(b, "shape", None) and all(det0(x, y) for x, y in zip(list(a), list(b)))
    return det0(a, b)


class Run:
    def __init__(self, sc):
        from tfc.utils import CeSolver

        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.m = [Model(t) for t in sc["init"]]
        # shared objects: the same lists of operators and values go to both solvers
        self.shared = {}
        self.o = []
        for t in sc["init"]:
            self.o.append(CeSolver(self.val("C", t["C"]), self.val("K", t["K"]), self.val("s", t["s"]), FN[t["g"]]))
        self.printer()

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def val(self, k, v):
        if k == "g":
            return FN[v]
        if k == "phi":
            return SP.Matrix([[ex(a) for a in v]])
        if k == "ce":
            return None
        key = (k, repr(v))
        if key not in self.shared:
            self.shared[key] = [OPF[c] for c in v] if k == "C" else [ex(a) for a in v]
        return self.shared[key]

    def printer(self):
        """sympy's own code generation must not notice this package."""
        sp = SP
        e = sp.sin(X) * sp.sqrt(X) + sp.exp(X) * sp.pi
        t = sp.pycode(e)
        if "np." in t or t.count("math.") != 4:
            raise Bad("printer", f"sympy generates {t!r} for other users")
        from sympy.printing.numpy import NumPyPrinter

        t = NumPyPrinter().doprint(e)
        if t.count("numpy.") != 4:
            raise Bad("printer", f"sympy's numpy code is now {t!r}")
        if abs(sp.lambdify(X, e, "math")(1.0) - (0.8414709848078965 + 8.539734222673566)) > 1e-12:
            raise Bad("printer", "sympy's generated functions now compute something else")

    def get(self, o, what):
        from tfc.utils.CeSolver import TfcPrinter

        if what == "check":
            return self.o[o].checkCe()
        if what == "print":
            ce = self.o[o].ce
            return TfcPrinter().doprint(SP.sqrt(X) * SP.sin(Y) + SP.exp(X)), ce
        return getattr(self.o[o], what)

    def fault(self, f, fn):
        """Returns (outcome, value): outcome in ok, exc, int."""
        from .. import sched

        Env.armed, Env.fired = None, False
        it = sched.Interrupt(f[1]) if f and f[0] == "int" else None
        if f and f[0] == "op":
            Env.armed = f[1]
        try:
            if it:
                with it:
                    v = fn()
            else:
                v = fn()
            r = ("ok", v)
        except sched.Interrupted:
            r = ("int", it.fired)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            r = ("exc", e)
        Env.armed = None
        if it and it.fired:
            self.c("fault.interrupt")
        if Env.fired:
            self.c("fault.operator_failure")
        return r

    def judge(self, o, what, f):
        m = self.m[o]
        r = self.fault(f, lambda: self.get(o, what))
        opf = Env.fired
        hist = f"after {self.n} operations, reading {what} of solver {o}"
        base = {"check": "ce", "print": "ce"}.get(what, what)
        ok, w = want(m, base)
        self.log.add(what, r[0], str(r[1])[:2000] if r[0] != "exc" else type(r[1]).__name__)
        if r[0] == "int":
            return
        if r[0] == "exc":
            if opf:
                if not isinstance(r[1], OpFail):
                    raise Bad("error", f"{hist}: the operator's own error became {type(r[1]).__name__}: {r[1]}")
                return
            if ok and not (what == "check" and len(m.K) != len(m.C)):
                raise Bad("failed", f"{hist} failed although the inputs have a result: {type(r[1]).__name__}: {r[1]}")
            self.c("reads.unsolvable")
            return
        if opf:
            raise Bad("swallowed", f"{hist} returned although an operator failed")
        if not ok:
            raise Bad("stale", f"{hist} returned {str(r[1])[:200]} although the inputs have no result ({w})")
        if what == "check":
            if len(m.K) == len(m.C):
                holds = all(det0(apply(OPS[c], w), k) for c, k in zip(m.C, m.K))
                if bool(r[1]) and not holds:
                    raise Bad("check", f"{hist}: the expression is reported to satisfy the constraints but does not")
                if not r[1] and holds and m.ce_u is None and m.phi_u is None:
                    self.c("check.conservative")
            self.c("reads.compared")
            return
        v = r[1]
        if what == "print":
            t, v = v
            if t != "np.sqrt(x)*np.sin(y) + np.exp(x)" and t.replace(" ", "") not in ("np.sqrt(x)*np.sin(y)+np.exp(x)", "np.exp(x)+np.sqrt(x)*np.sin(y)"):
                raise Bad("printer", f"{hist}: printed as {t!r}")
            self.printer()
        if not eq(v, w):
            raise Bad("stale", f"{hist} returned {str(v)[:300]}, the inputs set give {str(w)[:300]}")
        if base == "ce" and m.ce_u is None and m.phi_u is None:
            for c, k in zip(m.C, m.K):
                if not det0(apply(OPS[c], v), k):
                    raise Bad("constraint", f"{hist}: {str(v)[:300]} violates constraint {OPS[c]} = {k}")
        self.c("reads.compared")

    def go(self):
        for self.n, op in enumerate(self.sc["ops"]):
            if op[0] == "get":
                self.judge(op[1], op[2], op[3])
                continue
            _, o, k, v, f = op
            attr = {"K": "kappa"}.get(k, k)
            val = self.val(k, v)
            if k == "ce":
                val = ex(v[0]) + self.m[o].g
            before = getattr(self.o[o], attr) if k in ("C", "K", "s", "g") else None
            r = self.fault(f, lambda: setattr(self.o[o], attr, val))
            new = self.m[o].copy()
            new.set(k, v)
            self.log.add("set", k, r[0])
            if r[0] == "exc":
                raise Bad("failed", f"setting {k} failed: {type(r[1]).__name__}: {r[1]}")
            if r[0] == "ok":
                self.m[o] = new
                self.c("sets")
                if k in ("C", "K", "s", "g") and getattr(self.o[o], attr) is not val and list(getattr(self.o[o], attr)) != list(val):
                    raise Bad("stale", f"{k} reads back differently after setting it")
                continue
            # interrupted: entirely the old or entirely the new value, told apart by reading it back where it can be
            old = self.m[o]
            self.c("sets.interrupted")
            cands = [m for m in (old, new)]
            if k in ("phi", "ce"):
                mm = old.copy()
                mm.ce_u = None
                cands.append(mm)
                if k == "phi":
                    mm = old.copy()
                    mm.phi_u = mm.ce_u = None
                    cands.append(mm)
            else:
                cur = getattr(self.o[o], attr)
                # setting the value it already has cannot be told from not setting it
                bases = [old, new] if cur is val and before is val else [new] if cur is val else [old]
                cands = []
                for base in bases:
                    mm = base.copy()
                    mm.ce_u = None
                    mm2 = mm.copy()
                    mm2.phi_u = None
                    mm3 = base.copy()
                    mm3.phi_u = None
                    cands += [base, mm, mm2, mm3]
            fit = None
            for m in cands:
                g = True
                for what in ("phi", "ce"):
                    ok, w = want(m, what)
                    rr = self.fault(None, lambda: self.get(o, what))
                    if (rr[0] == "ok") != ok or (ok and not eq(rr[1], w)):
                        g = False
                        break
                if g:
                    fit = m
                    break
            if fit is None:
                raise Bad("half", f"after setting {k} was interrupted at {r[1]}, the results belong neither to the old nor to the new inputs")
            self.m[o] = fit
        for o in range(len(self.o)):
            self.judge(o, "ce", None)
            self.judge(o, "phi", None)
        self.printer()


def run(sc):
    v = None
    r = None
    try:
        r = Run(sc)
        r.n = 0
        r.go()
    except Bad as e:
        v = e.v
    if r is None:
        return v, {"counters": {}, "digest": None, "sig": None}
    nt = r.cnt.get("reads.compared", 0) >= 2 and r.cnt.get("sets", 0) >= 2
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
