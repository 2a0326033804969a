"""S14: random features are drawn once each, in range, from the generator the caller seeds."""
import ctypes
import gc
import warnings

from ..util import Bad, Log, drop_each, sig

BUILD = "plain"
BATCH = 16
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 900, "seconds": 60, "recheck": 2},
    "thorough": {"runs": 30000, "seconds": 1200, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history of creating random-feature objects (5 activations, 1-3 dimensions, both backends) and other "
    "objects, failing and interrupted creations, evaluations (plain and compiled), weight reads and assignments, dropping and "
    "collecting, numbers the caller draws itself and new seedings of either generator, partly in 2-3 simulated threads; the two "
    "process generators are modelled as streams from which every number may be taken once. Non-trivial: at least two "
    "objects drew their weights; distinct by the scenario."
)
MEASURE = "hash of every weight and number drawn, every outcome and the thread schedule"
REAL = ["tfc.utfc, tfc.mtfc", "the compiled extension", "tfc.utils.BF_Py", "libc rand, numpy.random", "jax, XLA"]
STUB = ["caller threads (simulated scheduler)", "asynchronous interrupt (raised at a seeded line)", "seeds of both generators"]
ASSUMPTIONS = ["no other library in the process draws from the two generators (checked: the model would lose its place)"]


def gen(rng, tier):
    from .. import objs

    n = rng.choice([2, 3, 4, 5, 6])
    cfgs = [objs.gen_cfg(rng, elm=rng.random() < 0.8, backend=rng.choice(["C++", "Python"]), small=True) for _ in range(n)]
    if rng.random() < 0.4:
        cfgs[-1] = dict(cfgs[0])
    ops = []
    made = set()

    def op():
        r = rng.random()
        if r < 0.40 or not made:
            i = rng.randrange(n)
            made.add(i)
            return ["new", i]
        if r < 0.47:
            return ["int", rng.randrange(n), rng.randint(0, 90)]
        if r < 0.52:
            return ["bad", rng.randrange(n), rng.choice(["basis", "nC", "backend"])]
        if r < 0.66:
            return ["ev", rng.choice(sorted(made)), rng.random() < 0.4]
        if r < 0.71:
            return ["set", rng.choice(sorted(made)), rng.choice("wb"), round(rng.uniform(-2, 2), 3)]
        if r < 0.80:
            return ["user", rng.choice(["C++", "Python"]), rng.randint(1, 4)]
        if r < 0.90:
            return ["seed", rng.choice(["C++", "Python"]), rng.choice([1, 2, 3, rng.randrange(1 << 30)])]
        if r < 0.95:
            return ["del", rng.choice(sorted(made))]
        return ["gc"]

    for _ in range(rng.randint(3, 14 if tier == "quick" else 30)):
        ops.append(op())
    th, plan = [], []
    if rng.random() < 0.35:
        th = [[rng.randrange(n) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        plan = [[rng.choice([0, 3, 8, 15, 30, 60]), rng.randrange(6)] for _ in range(rng.randint(3, 24))]
    return {"cfgs": cfgs, "ops": ops, "threads": th, "plan": plan, "seeds": [rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30)]}


def shrink(sc):
    for c in drop_each(sc["ops"], 0 if sc["threads"] else 1):
        yield dict(sc, ops=c)
    if sc["threads"]:
        if sc["ops"]:
            yield dict(sc, threads=[], plan=[])
        for c in drop_each(sc["threads"], 2):
            yield dict(sc, threads=c)
        for p in drop_each(sc["plan"]):
            yield dict(sc, plan=p)


def setup():
    import tfc  # noqa: F401
    from tfc.utils import BF_Py  # noqa: F401

    from .. import sched

    sched.install()
    warnings.simplefilter("ignore")


LIBC = None
RAND_MAX = 2147483647


class Stream:
    """A process generator: the numbers it will give after a seeding, and the places the process may have reached."""

    def __init__(self, backend):
        self.be = backend

    def seed(self, s):
        import numpy as np

        self.s = s
        self.vals = []
        self.at = {0}
        if self.be == "C++":
            LIBC.srand(s)
        else:
            self.rs = np.random.RandomState(s)
            np.random.seed(s)

    def need(self, k):
        """The first k numbers; asking the real C generator is only possible from the start, so it is done by a second seeding."""
        import numpy as np

        if self.be == "Python":
            while len(self.vals) < k:
                self.vals += list(self.rs.random_sample(256))
        return np.array(self.vals[:k])


def c_stream(seed, k):
    """What rand() gives after srand(seed): glibc's additive feedback generator."""
    r = [seed if seed else 1]
    for i in range(1, 31):
        h = r[-1] // 127773
        lo = r[-1] - h * 127773
        v = 16807 * lo - 2836 * h
        r.append(v + 2147483647 if v < 0 else v)
    r = r[:31]
    o = [x & 0xFFFFFFFF for x in r] + [0, 0, 0]
    o[31], o[32], o[33] = o[0], o[1], o[2]
    for i in range(34, 344):
        o.append((o[i - 31] + o[i - 3]) & 0xFFFFFFFF)
    out = []
    i = 344
    while len(out) < k:
        o.append((o[i - 31] + o[i - 3]) & 0xFFFFFFFF)
        out.append((o[i] >> 1) / RAND_MAX)
        i += 1
    return out


class Run:
    def __init__(self, sc):
        global LIBC
        LIBC = ctypes.CDLL(None)
        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.st = {"C++": Stream("C++"), "Python": Stream("Python")}
        self.objs = {}
        self.fns = {}
        for s, b in zip(sc["seeds"], ("C++", "Python")):
            self.seed(b, s)

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def seed(self, be, s):
        self.st[be].seed(s)
        if be == "C++":
            self.st[be].vals = c_stream(s, 3000)

    def took(self, be, vals, what, ordered=False):
        """vals (in [0, 1]) were taken from the stream, each number once and none skipped."""
        import numpy as np

        st = self.st[be]
        v = np.array(vals, float)
        n = len(v)
        if n and (np.min(v) < -1e-12 or np.max(v) > 1 + 1e-12):
            raise Bad("range", f"{what}: drew values outside their range")
        s = v if ordered else np.sort(v)
        ok = set()
        for a in st.at:
            q = np.asarray(st.need(a + n)[a : a + n])
            if len(q) == n and np.allclose(q if ordered else np.sort(q), s, rtol=0, atol=1e-9):
                ok.add(a + n)
        self.log.add(what, v)
        if not ok:
            near = st.need(max(st.at) + n)
            known = int(sum(bool(np.any(np.abs(near - x) < 1e-9)) for x in v))
            raise Bad("stream", f"{what}: {n} numbers were drawn that are not the next {n} of the generator the caller seeded with {st.s} ({known} of them had been or would be drawn from it)")
        st.at = ok

    def taken(self, i, o):
        import numpy as np

        cfg = self.sc["cfgs"][i]
        r = 10.0 if cfg["kind"] == 1 else 1.0
        m = cfg["deg"] + 1
        w, b = (np.array(v, float, copy=True).ravel() for v in (o.basisClass.w, o.basisClass.b))
        if w.size != m * cfg["kind"] or b.size != m:
            raise Bad("size", f"a new {cfg['basis']} of dimension {cfg['kind']} with {m} functions has {w.size} weights and {b.size} biases")
        return (np.concatenate([w, b]) + r) / (2 * r)

    def make(self, i):
        from tfc import mtfc, utfc

        from .. import objs

        c = self.sc["cfgs"][i]
        if c["kind"] == 1:
            return utfc(c["N"], objs.nCarg(c), c["deg"], basis=c["basis"], x0=c["x0"], xf=c["xf"], backend=c["backend"])
        return mtfc(list(c["n"]), objs.nCarg(c), c["deg"], dim=c["kind"], basis=c["basis"], x0=list(c["x0"]), xf=list(c["xf"]), backend=c["backend"])

    def elm(self, i):
        from .. import objs

        return self.sc["cfgs"][i]["basis"] in objs.ELM

    def name(self, i):
        c = self.sc["cfgs"][i]
        return f"{c['backend']} {c['basis']} of dimension {c['kind']}"

    def partly(self, i):
        """A creation that failed may have drawn any number of its values, or none."""
        if self.elm(i):
            c = self.sc["cfgs"][i]
            n = (c["deg"] + 1) * (c["kind"] + 1)
            st = self.st[c["backend"]]
            st.at = {a + k for a in st.at for k in range(n + 1)}

    def new(self, i):
        o = self.make(i)
        if self.elm(i):
            self.took(self.sc["cfgs"][i]["backend"], self.taken(i, o), f"creating a {self.name(i)}")
            self.c("objects.drawn")
        self.objs[i] = o
        self.fns.pop(i, None)

    def go(self):
        import jax
        import numpy as np

        from .. import sched

        for op in self.sc["ops"]:
            k = op[0]
            self.log.add(op)
            if k == "new":
                self.new(op[1])
            elif k == "int":
                it = sched.Interrupt(op[2])
                o = None
                try:
                    with it:
                        o = self.make(op[1])
                except sched.Interrupted:
                    pass
                if o is None:
                    self.partly(op[1])
                    self.c("fault.interrupt")
                elif self.elm(op[1]):
                    self.took(self.sc["cfgs"][op[1]]["backend"], self.taken(op[1], o), f"creating a {self.name(op[1])}")
            elif k == "bad":
                c = dict(self.sc["cfgs"][op[1]])
                if op[2] == "nC":
                    c["nCarg"] = c["deg"] + 5
                else:
                    c[op[2]] = "none such"
                old = self.sc["cfgs"][op[1]]
                self.sc["cfgs"][op[1]] = c
                import contextlib
                import io

                o = None
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        o = self.make(op[1])
                except (Exception, SystemExit):
                    pass
                finally:
                    self.sc["cfgs"][op[1]] = old
                self.partly(op[1])
                self.c("fault.rejected_creation" if o is None else "accepted")
            elif k == "user":
                if op[1] == "C++":
                    v = [LIBC.rand() / RAND_MAX for _ in range(op[2])]
                else:
                    v = [float(np.random.uniform()) for _ in range(op[2])]
                self.took(op[1], v, f"the caller's own draws from the {op[1]} generator", ordered=True)
                self.c("caller.draws", op[2])
            elif k == "seed":
                self.seed(op[1], op[2])
                self.c("fault.reseeded")
            elif k == "gc":
                gc.collect()
            elif op[1] not in self.objs:
                continue
            elif k == "ev":
                i = op[1]
                o, c = self.objs[i], self.sc["cfgs"][i]
                x = (o.x,) if c["kind"] == 1 else tuple(o.x)
                if op[2] and c["backend"] == "C++":
                    f = self.fns.setdefault(i, jax.jit(lambda *a, o=o: o.H(*a)))
                    r = f(*x)
                else:
                    r = o.H(*x)
                self.log.add(np.asarray(r))
                self.c("evaluations")
            elif k == "set":
                if self.elm(op[1]):
                    a = getattr(self.objs[op[1]].basisClass, op[2])
                    setattr(self.objs[op[1]].basisClass, op[2], np.full_like(np.array(a, float), op[3]))
            elif k == "del":
                self.objs.pop(op[1])
                self.fns.pop(op[1], None)
        if self.sc["threads"]:
            self.threads()
        # nothing else took numbers: the caller's next ones are the next of each stream
        for be in ("C++", "Python"):
            v = [LIBC.rand() / RAND_MAX, LIBC.rand() / RAND_MAX] if be == "C++" else [float(x) for x in np.random.random_sample(2)]
            self.took(be, v, f"the caller's last draws from the {be} generator", ordered=True)

    def threads(self):
        from .. import sched

        res = [[] for _ in self.sc["threads"]]

        def body(t):
            for i in self.sc["threads"][t]:
                res[t].append((i, self.make(i)))

        s = sched.Sched(self.sc["plan"])
        out = s.run([lambda t=t: body(t) for t in range(len(res))])
        if s.switches:
            self.c("fault.preemption", s.switches)
        self.log.add(s.trace)
        for r in out:
            if r[0] != "ok":
                raise Bad("failed", f"creating an object beside other threads failed: {type(r[1]).__name__}: {r[1]}")
        for be in ("C++", "Python"):
            v = []
            for r in res:
                for i, o in r:
                    if self.elm(i) and self.sc["cfgs"][i]["backend"] == be:
                        v += list(self.taken(i, o))
                        self.c("objects.drawn")
            self.took(be, v, f"creating {be} objects in several threads")


def run(sc):
    import copy

    r = None
    v = None
    try:
        r = Run(copy.deepcopy(sc))
        r.go()
    except Bad as e:
        v = e.v
    nt = r.cnt.get("objects.drawn", 0) >= 2
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
