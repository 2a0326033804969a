"""S06: timing a solve does not change it, and the reported time is the selected clock's difference over the solve itself."""
from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "sim"
BATCH = 16
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 600, "seconds": 80, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is one least-squares problem whose residual evaluates compiled basis functions, solved untimed and then timed "
    "(function or reusable solver object, 1-4 runs, 10 clocks) under simulated clocks that advance only with work done by "
    "compiled evaluations and by tracing, each at its own rate, some jumping or stalling, with compiled work delayed so that "
    "a clock read before the work finished is visible; later runs of a solver object may have other shapes, number types or "
    "orders of keys; timed runs may be interrupted or fail first. Non-trivial: at least "
    "one timed solve did a positive amount of work; distinct by the scenario."
)
MEASURE = "hash of reported times, clock reads, solutions and iteration counts"
REAL = ["tfc.utils.TFCUtils (LS, LsClass, NLLS, NllsClass)", "tfc.utfc", "tfc.utils.BF (C++, instrumented build)", "jax with asynchronous dispatch", "XLA CPU"]
STUB = ["all clocks of the time module (simulated, driven by work done)", "asynchronous interrupt (raised at a seeded line)"]
ASSUMPTIONS = ["the work of a solve is counted in compiled basis evaluations and traced residuals"]
CLOCKS = [
    "process_time", "perf_counter", "monotonic", "time", "thread_time", "process_time_ns", "perf_counter_ns", "monotonic_ns",
    "time_ns", "thread_time_ns",
]
TRACE = 1000000.0


def gen(rng, tier):
    nl = rng.random() < 0.55
    deg = rng.choice([6, 7, 8])
    nC = rng.choice([1, 2])
    kind = rng.choice(["np", "jax", "dict", "dictnp", "rob"])
    m = deg + 1 - nC
    p = {
        "nl": nl, "kind": kind, "m": m, "n": 0, "s": rnd(rng, 0.6, 1.6), "g": rnd(rng, 0.02, 0.1) if nl else 0.0, "cplx": False,
        "u": [rnd(rng, -0.5, 0.5) or 0.2 for _ in range(m)], "noise": [], "N": rng.choice([24, 30, 36]), "deg": deg, "nC": nC,
        "basis": rng.choice(["CP", "LeP"]),
    }
    jumps = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        jumps.append([rng.randint(0, rng.choice([12, 60, 150])), rnd(rng, -50, 50)])
    clk = {c: [rnd(rng, 0, 100), rng.choice([1, 1, 2, 3, 5, 7, 0.5, 0.25])] for c in CLOCKS}
    if rng.random() < 0.1:
        clk[rng.choice(CLOCKS)][1] = 0
    runs = []
    cls = rng.random() < 0.6
    for _ in range(rng.randint(1, 4) if cls else 1):
        runs.append({"guess": [rnd(rng, -0.1, 0.1) for _ in range(m)], "shift": rng.choice([0.0, 0.05, -0.05]), "fault": None if rng.random() < 0.7 else rng.choice([["int", rng.randint(0, 25)], ["bad"], ["fail", rng.randint(0, 2)]]), "alt": rng.choice(["swap", "more", "less", "num"]) if cls and rng.random() < 0.4 else None})
    return {
        "p": p, "cls": cls, "clock": rng.choice(["time", "time_ns"] if jumps and rng.random() < 0.6 else CLOCKS) if rng.random() < 0.85 else None, "clk": clk, "jumps": jumps, "runs": runs,
        "method": rng.choice(["pinv", "pinv", "lstsq"]), "J": rng.random() < 0.2, "consts": rng.choice([None, None, [2], [3], [3, 2]]),
        "tol": rng.choice([1e-6, 1e-9]), "maxIter": rng.choice([50, 50, 2, 1]), "print": nl and rng.random() < 0.2, "delay": rng.choice([1500, 3000]), "loop": rng.random() < 0.6,
        "cond": nl and rng.random() < 0.2, "npit": nl and rng.random() < 0.2,
    }


def shrink(sc):
    for c in drop_each(sc["runs"], 1):
        yield dict(sc, runs=c)
    for c in drop_each(sc["jumps"]):
        yield dict(sc, jumps=c)
    for k, v in (("J", False), ("consts", None), ("print", False), ("method", "pinv"), ("cond", False), ("npit", False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k, r in enumerate(sc["runs"]):
        if r["fault"]:
            yield dict(sc, runs=sc["runs"][:k] + [dict(r, fault=None)] + sc["runs"][k + 1 :])
        if r["alt"]:
            yield dict(sc, runs=sc["runs"][:k] + [dict(r, alt=None)] + sc["runs"][k + 1 :])


def setup():
    import tfc  # noqa: F401
    import tfc.utils.BF  # noqa: F401
    import tfc.utils.TFCUtils  # noqa: F401

    from .. import native, sched

    native.load()
    sched.install()


class Clocks:
    def __init__(self, sc, rt):
        self.sc = sc
        self.rt = rt
        self.extra = 0.0
        self.base = rt.sim_calls()
        self.reads = []
        self.t0 = 0.0

    def W(self):
        """Work done so far: compiled evaluations finished, and tracing."""
        return (self.rt.sim_calls() - self.base, self.extra)

    def at(self, c, w):
        off, rate = self.sc["clk"][c]
        j = 0.0
        if c in ("time", "time_ns"):
            for at, d in self.sc["jumps"]:
                if w[0] >= at:  # the wall clock is set once that much work has been done
                    j += d
        s = off + rate * (w[0] + w[1]) + j
        return int(round(s * 1e9)) if c.endswith("_ns") else s

    def patch(self):
        import time

        self.saved = {c: getattr(time, c) for c in CLOCKS}

        def mk(c):
            def f():
                v = self.at(c, self.W())
                self.reads.append((c, v))
                return v

            return f

        for c in CLOCKS:
            setattr(time, c, mk(c))

    def unpatch(self):
        import time

        for c, f in self.saved.items():
            setattr(time, c, f)


def run(sc):
    import ctypes
    import sys

    import jax
    import jax.numpy as jnp
    import numpy as np
    from tfc import utfc
    from tfc.utils import LS, NLLS, LsClass, NllsClass

    from .. import native, probs, ref, sched

    rt = native.load()
    rt.sim_calls.restype = ctypes.c_uint64
    native.begin_run()
    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    p = sc["p"]
    o = utfc(p["N"], p["nC"], p["deg"], basis=p["basis"], x0=-1.0, xf=1.0)
    x = o.x
    cfg = {"kind": 1, "basis": p["basis"], "deg": p["deg"], "nC": list(range(p["nC"])), "x0": -1.0, "xf": 1.0}
    Hn = ref.H1(cfg, np.asarray(x), 0, False)[0]
    ck = Clocks(sc, rt)
    arm = [None, 0]

    def hook():
        ck.extra += TRACE
        if arm[0] is not None:
            arm[1] += 1
            if arm[1] > arm[0]:
                raise probs.InjectedError("injected residual failure")

    def pts(xx, xi):
        # work inside the iteration: the points depend on the unknowns (by nothing)
        return xx + jnp.where(jax.lax.stop_gradient(probs.vec(p, xi))[0] > 1e30, 1.0, 0.0) if sc["loop"] else xx

    def res(xi, xx, c, s):
        hook()
        v = o.H(pts(xx, xi)) @ probs.vec(p, xi)
        return s[0] * v + p["g"] * v**3 - c

    def J(xi, xx, c, s):
        M = o.H(pts(xx, xi))
        v = M @ probs.vec(p, xi)
        return (s[0] + 3 * p["g"] * v**2)[:, None] * M

    def args(shift, alt=None):
        """The arguments, and whether the unknowns' keys are given in the other order."""
        xx, H, s = x, Hn, jnp.array([p["s"]])
        c = sc["consts"] or []
        if alt in ("more", "less") and 2 not in c:
            xx = jnp.array(np.concatenate([np.asarray(x), [0.123, -0.456]]) if alt == "more" else np.asarray(x)[:-2])
            H = ref.H1(cfg, np.asarray(xx), 0, False)[0]
            count("run_again.other_points")
        elif alt == "num" and 3 not in c:
            s = s.astype(jnp.float32)
            count("run_again.other_number_type")
        v = H @ (np.array(p["u"]) * (1 + shift))
        return [xx, jnp.array(p["s"] * v + p["g"] * v**3), s]

    kw = {"method": sc["method"]}
    if sc["J"]:
        kw["J"] = J
    if sc["consts"]:
        kw["constant_arg_nums"] = list(sc["consts"])
    if p["nl"]:
        kw.update(tol=sc["tol"], maxIter=np.int64(sc["maxIter"]) if sc["npit"] else sc["maxIter"], printOut=sc["print"])
        if sc["cond"]:
            # the caller's own stopping rule, which knows nothing of maxIter
            kw["cond"] = lambda val: jnp.logical_and(jnp.max(jnp.abs(val["dxi"])) > sc["tol"], val["it"] < 12)
    tk = dict(kw, timer=True)
    if sc["clock"]:
        tk["timerType"] = sc["clock"]
    clock = sc["clock"] or "process_time"

    def settle(r):
        for leaf in jax.tree_util.tree_leaves(r):
            if hasattr(leaf, "block_until_ready"):
                leaf.block_until_ready()

    def passed(a):
        return [a[j] for j in range(3) if j + 1 not in (sc["consts"] or [])]

    v = None
    so = sys.stdout
    try:
        rt.sim_call_delay(sc["delay"])
        ck.patch()
        first = args(sc["runs"][0]["shift"])
        xi0 = probs.split(p, sc["runs"][0]["guess"])
        if sc["cls"]:
            C = NllsClass if p["nl"] else LsClass
            plain = C(xi0, res, *first, **kw)
            timed = C(xi0, res, *first, **tk)
        for k, r in enumerate(sc["runs"]):
            alt = r["alt"] if k else None
            a = args(r["shift"], alt)
            if sc["consts"] and 2 in sc["consts"]:
                a = [first[0], first[1], a[2]]
            swap = alt == "swap" and p["kind"] not in ("np", "jax") and not sc["J"]
            if swap:
                count("run_again.keys_in_another_order")
            g = probs.split(p, r["guess"], swap)
            # the same solve untimed: the solution, the iterations and the amount of work
            w0 = ck.W()
            if sc["cls"]:
                u = plain.run(g, *passed(a))
            else:
                u = (NLLS if p["nl"] else LS)(g, res, *a, **kw)
            early = ck.rt.sim_calls()
            settle(u)
            if ck.rt.sim_calls() > early:
                count("asynchronous_dispatch_observed")
            work = ck.W()[0] - w0[0]
            # possible failing or interrupted attempt before the real one
            if r["fault"]:
                try:
                    if r["fault"][0] == "int":
                        with sched.Interrupt(r["fault"][1]) as itr:
                            (timed.run(g, *passed(a)) if sc["cls"] else (NLLS if p["nl"] else LS)(g, res, *a, **tk))
                    elif r["fault"][0] == "fail":
                        arm[0], arm[1] = r["fault"][1], 0
                        (timed.run(g, *passed(a)) if sc["cls"] else (NLLS if p["nl"] else LS)(g, res, *a, **tk))
                    else:
                        (timed.run(g) if sc["cls"] else (NLLS if p["nl"] else LS)(g, res, **tk))
                except sched.Interrupted:
                    count("fault.interrupt")
                except probs.InjectedError:
                    count("fault.residual_failure")
                except (Exception, SystemExit):
                    count("fault.failed_run")
                finally:
                    arm[0] = None
                # let anything still in flight finish
                jax.block_until_ready(o.H(x))
                q = -1
                while q != rt.sim_calls():
                    q = rt.sim_calls()
                    rt_sleep(0.02 + 4e-6 * sc["delay"], ck)
            try:
                if sc["cls"]:
                    t = timed.run(g, *passed(a))
                else:
                    t = (NLLS if p["nl"] else LS)(g, res, *a, **tk)
            except Exception as e:
                raise Bad("exception", f"timed solve: {type(e).__name__}: {str(e)[:500]}")
            if not isinstance(t, tuple) or len(t) != (3 if p["nl"] else 2):
                raise Bad("wrong-structure", f"a timed solve returned {type(t).__name__} of {len(t) if isinstance(t, tuple) else '?'} values")
            settle(t[:-1])
            wend = ck.W()
            rep = t[-1]
            log.add(float(rep), [c for c, _ in ck.reads if c == clock][:8])
            # solution and iterations
            us, ts = (u[0], t[0]) if p["nl"] else (u, t[0])
            uf, tf = probs.flat(p, us, swap), probs.flat(p, ts, swap)
            log.add(uf, tf)
            if not probs.close(tf, uf, 1e-9):
                raise Bad("timing-changes-solution", f"timed {tf.tolist()}, untimed {uf.tolist()}")
            if p["nl"] and int(u[1]) != int(t[1]):
                raise Bad("timing-changes-iterations", f"timed {int(t[1])}, untimed {int(u[1])}")
            # the reported time
            wbeg = (wend[0] - work, wend[1])
            want = ck.at(clock, wend) - ck.at(clock, wbeg)
            err = abs(float(rep) - float(want))
            if err > 1e-6 * (1 + abs(float(want))):
                raise Bad(
                    "wrong-time",
                    f"run {k + 1} ({'solver object' if sc['cls'] else 'function'}, {clock}): reported {rep}, the clock advanced by {want} over the "
                    f"solve ({work} units of work at rate {sc['clk'][clock][1]})",
                )
            count("timed_solves")
            count("clock." + clock)
            count("work_units", int(work))
            if clock in ("time", "time_ns") and any(wbeg[0] < at <= wend[0] for at, _ in sc["jumps"]):
                count("fault.clock_jump_during_solve")
            if sc["clk"][clock][1] == 0:
                count("fault.stalled_clock")
    except Bad as b:
        v = b.v
    except Exception as e:
        v = Bad("exception", f"{type(e).__name__}: {str(e)[:500]}").v
    finally:
        ck.unpatch()
        rt.sim_call_delay(0)
        sys.stdout = so
    log.add(v and v["class"])
    st = n.get("work_units", 0)
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(sc) if st else None,
        "sample": {"clock": clock, "rate": sc["clk"][clock][1], "jumps": sc["jumps"], "solver_object": sc["cls"], "nonlinear": p["nl"], "unknowns": p["kind"], "runs": sc["runs"][:2]},
        "sim_time": float(st),
    }


def rt_sleep(s, ck):
    import select

    select.select([], [], [], s)
