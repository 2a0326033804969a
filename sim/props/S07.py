"""S07: a nonlinear solve performs exactly the iterations its stopping rule asks for and reports each one once, in order, truthfully."""
from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "none"
BATCH = 16
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 640, "seconds": 80, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history of 1-5 nonlinear solves (function or reusable solver objects used alternately; printed or "
    "silent; timed or not; default or user stopping condition or iteration; problems with and without an exact solution; every unknown container; iteration limits 0-50; terminators) "
    "whose reports go to a simulated output stream that may be slow, refuse a write, or be interrupted, with failing and "
    "interrupted solves in between. Non-trivial: at least one solve with two or more iterations had its reports compared; "
    "distinct by the scenario."
)
MEASURE = "hash of every byte written to the simulated stream, and all solutions and iteration counts"
REAL = ["tfc.utils.TFCUtils (NLLS, NllsClass, nlls_id_print)", "jax host callbacks", "XLA CPU"]
STUB = ["standard output (simulated stream with write faults)", "asynchronous interrupt (raised at a seeded line)"]
ASSUMPTIONS = [
    "a user stopping condition is used in untimed solves only (a timed solve evaluates it once more while compiling)",
    "iteration counts are compared when every stopping decision of the numpy reference is at least a factor 5 away from its threshold",
]
ENDS = ["\n", "\n", " | ", "\r", "#\n", ""]


def gen(rng, tier):
    from .. import probs

    ps = [probs.gen(rng, nl=True) for _ in range(rng.choice([1, 2]))]
    for p in ps:
        # without an exact solution the residual never gets small and the step decides
        if p["n"] > p["m"] and rng.random() < 0.6:
            p["noise"] = [rnd(rng, -0.04, 0.04) for _ in range(p["n"])]
            p["cs"] = [1.0] * p["m"]
    sol = []
    for _ in range(rng.choice([1, 2, 2])):
        timer = rng.random() < 0.3
        sol.append(
            {
                "p": rng.randrange(len(ps)), "cls": rng.random() < 0.6, "timer": timer, "print": rng.random() < 0.85,
                "end": rng.choice(ENDS), "tol": rng.choice([1e-4, 1e-6, 1e-8]), "maxIter": rng.choice([50, 50, 20, 5, 3, 2, 1, 0]),
                "method": rng.choice(["pinv", "lstsq"]), "J": rng.random() < 0.2, "consts": rng.choice([None, None, [1], [2, 1], [3]]),
                "cond": None if rng.random() < 0.65 else rng.choice([["it", rng.randint(0, 6)], ["dxi", 1e-3], ["res", 1e-2]]),
                "body": None,
            }
        )
        sol[-1]["jf"] = 1.0
        if sol[-1]["J"] and rng.random() < 0.6:
            # an inexact Jacobian of the caller's: every step is 1/jf of the exact one
            sol[-1].update(jf=rng.choice([0.8, 1.25, 2.0]), maxIter=rng.choice([1, 2, 3, 4]), cond=None)
            if rng.random() < 0.4:
                # converging too slowly for the documented default limits
                sol[-1].update(jf=rng.choice([4.0, 2.0]), maxIter=50, tol=1e-13, dflt=True)
        elif rng.random() < 0.15:
            # the caller's own iteration replaces the default one, reports included
            sol[-1].update(body=0.98, print=False, consts=None)
    ops = []
    for _ in range(rng.randint(1, 5)):
        if ops and rng.random() < 0.2:
            # the same solve again
            ops.append([ops[-1][0], ops[-1][1], None])
            continue
        k = rng.randrange(len(sol))
        p = ps[sol[k]["p"]]
        g = [rnd(rng, -0.2, 0.2) for _ in range(p["m"])]
        if rng.random() < 0.15:
            g = p["u"]
        f = None
        r = rng.random()
        if r < 0.15:
            f = ["write", rng.randint(0, 8), rng.choice(sorted(FAILS))]
        elif r < 0.25:
            f = ["int", rng.randint(0, 40)]
        elif r < 0.32:
            f = ["slow", rng.choice([1, 5])]
        elif r < 0.40:
            f = ["res", rng.randint(0, 3)]
        ops.append([k, g, f])
    return {"ps": ps, "sol": sol, "ops": ops}


def shrink(sc):
    for c in drop_each(sc["ops"], 1):
        yield dict(sc, ops=c)
    for i, o in enumerate(sc["ops"]):
        if o[2]:
            yield dict(sc, ops=sc["ops"][:i] + [[o[0], o[1], None]] + sc["ops"][i + 1 :])
    for i, s in enumerate(sc["sol"]):
        for k, v in (("timer", False), ("J", False), ("dflt", False), ("jf", 1.0), ("consts", None), ("end", "\n"), ("cls", False), ("cond", None), ("body", None)):
            if s.get(k, v) != v:
                yield dict(sc, sol=sc["sol"][:i] + [dict(s, **{k: v})] + sc["sol"][i + 1 :])


def setup():
    import tfc  # noqa: F401
    import tfc.utils.TFCUtils  # noqa: F401

    from .. import sched

    sched.install()


FAILS = {
    "broken pipe": lambda: BrokenPipeError(32, "injected: broken pipe"),
    "would block": lambda: BlockingIOError(11, "injected: write could not complete without blocking"),
    "no space": lambda: OSError(28, "injected: no space left on device"),
    "i/o error": lambda: OSError(5, "injected: input/output error"),
    "interrupted": lambda: InterruptedError(4, "injected: interrupted system call"),
    "closed": lambda: ValueError("injected: I/O operation on closed file"),
    "encoding": lambda: UnicodeEncodeError("ascii", "x", 0, 1, "injected: ordinal not in range"),
}


class Stream:
    """Simulated standard output."""

    encoding = "utf-8"

    def __init__(self):
        self.text = ""
        self.fail = None
        self.slow = 0
        self.writes = 0
        self.failed = 0
        self.kind = "broken pipe"

    def write(self, s):
        if self.slow:
            import select

            select.select([], [], [], self.slow / 1000)
        if self.fail is not None:
            if self.fail == 0:
                self.fail = None
                self.failed += 1
                raise FAILS[self.kind]()
            self.fail -= 1
        self.text += s
        self.writes += 1
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def run(sc):
    import re
    import sys

    import jax
    import jax.numpy as jnp
    import numpy as np
    from tfc.utils import NLLS, NllsClass

    from .. import probs, sched

    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    rx = re.compile(r"Iteration: (\d+)\s+max\(abs\(res\)\): ([-+0-9.einfa]+)")
    out = Stream()
    so = sys.stdout
    arm = [None, 0]

    def hook():
        if arm[0] is not None:
            arm[1] += 1
            if arm[1] > arm[0]:
                raise probs.InjectedError("injected residual failure")

    def mkcond(s, p):
        c = s["cond"]
        if c[0] == "it":
            return lambda val: val["it"] < c[1]
        if c[0] == "dxi":
            return lambda val: jnp.logical_and(jnp.max(jnp.abs(val["dxi"])) > c[1], val["it"] < 30)
        res = probs.residual(p)
        full = probs.args(p)
        return lambda val: jnp.logical_and(jnp.max(jnp.abs(res(val["xi"], *full))) > c[1], val["it"] < 30)

    def kw(s, p):
        k = {"method": s["method"], "tol": s["tol"], "maxIter": s["maxIter"], "printOut": s["print"], "printOutEnd": s["end"], "timer": s["timer"]}
        if s.get("dflt"):
            del k["tol"], k["maxIter"]
            count("default_limits")
        if s["J"]:
            k["J"] = probs.jacobian(p, s["jf"])
        if s["consts"]:
            k["constant_arg_nums"] = list(s["consts"])
        if s["cond"]:
            k["cond"] = mkcond(s, p)
        if s["body"]:
            k["body"] = mkbody(s, p)
        return k

    def mkbody(s, p):
        res, jac = probs.residual(p), probs.jacobian(p)

        def body(val):
            val["dxi"] = s["body"] * (jnp.linalg.pinv(jac(val["xi"], *val["args"])) @ res(val["xi"], *val["args"]))
            val["xi"] -= val["dxi"]
            val["it"] += 1
            return val

        return body

    def model(s, p, a, g):
        c = s["cond"]
        if c is None:
            return probs.ref_nlls(p, a, g, s["tol"], s["maxIter"], s["body"] or (1 / s["jf"] if s["J"] else 1.0))
        u = np.array(g)
        d = np.ones(p["m"])
        it, rep, clear = 0, [], c[0] != "res" or c[1] > 10 * probs.floor(a)
        while True:
            if c[0] == "it":
                go = it < c[1]
            else:
                t = np.max(np.abs(d)) if c[0] == "dxi" else np.max(np.abs(probs.ref_res(p, u, a)))
                if 0.2 < t / c[1] < 5:
                    clear = False
                go = t > c[1] and it < 30
            if not go:
                break
            d = (s["body"] or (1 / s["jf"] if s["J"] else 1.0)) * (np.linalg.pinv(probs.ref_jac(p, u, a)) @ probs.ref_res(p, u, a))
            u = u - d
            rep.append(float(np.max(np.abs(probs.ref_res(p, u, a)))))
            it += 1
        return u, it, rep, clear

    objs = {}
    v = None
    best = 0
    try:
        sys.stdout = out
        for k, g, fault in sc["ops"]:
            s = sc["sol"][k]
            p = sc["ps"][s["p"]]
            a = probs.args(p)
            xi = probs.split(p, g)
            passed = [a[j] for j in range(3) if j + 1 not in (s["consts"] or [])]

            def go():
                if s["cls"]:
                    if k not in objs:
                        objs[k] = NllsClass(xi, probs.residual(p, hook), *a, **kw(s, p))
                    r = objs[k].run(xi, *passed)
                else:
                    r = NLLS(xi, probs.residual(p, hook), *a, **kw(s, p))
                jax.block_until_ready([x for x in jax.tree_util.tree_leaves(r) if hasattr(x, "block_until_ready")])
                jax.effects_barrier()
                return r

            out.text = ""
            out.fail, out.slow, out.failed = None, 0, 0
            arm[0] = None
            if fault and fault[0] == "write":
                out.fail, out.kind = fault[1], fault[2]
            elif fault and fault[0] == "slow":
                out.slow = fault[1]
            elif fault and fault[0] == "res":
                arm[0], arm[1] = fault[1], 0
            err = None
            r = None
            try:
                if fault and fault[0] == "int":
                    with sched.Interrupt(fault[1]) as itr:
                        r = go()
                else:
                    r = go()
            except (Exception, SystemExit, sched.Interrupted) as e:
                err = e
            try:
                jax.effects_barrier()
            except Exception:
                pass
            arm[0] = None
            out.fail, out.slow = None, 0
            text = out.text
            log.add(k, text, type(err).__name__ if err and not out.failed else bool(err))
            if fault and fault[0] == "slow":
                count("fault.slow_output")
            if out.failed:
                count("fault.failed_write." + fault[2].replace(" ", "_").replace("/", ""))
                if err is None:
                    raise Bad("lost-report", f"a write to standard output failed, yet the solve returned normally; output was {text!r}")
                # what was reported before the failure is still in order
                its = [int(m.group(1)) for m in rx.finditer(text)]
                if its != list(range(len(its))):
                    raise Bad("report-order", f"reports {its} before a failed write")
                continue
            if err is not None:
                if fault and fault[0] == "int" and itr.fired:
                    count("fault.interrupt")
                    continue
                if isinstance(err, probs.InjectedError):
                    count("fault.residual_failure")
                    continue
                raise Bad("exception", f"solve raised {type(err).__name__}: {str(err)[:500]}")
            want, wit, rep, clear = model(s, p, a, g)
            it = int(r[1])
            got = probs.flat(p, r[0])
            log.add(it, got)
            lines = [(int(m.group(1)), float(m.group(2)), m.end()) for m in rx.finditer(text)]
            if not s["print"]:
                if lines:
                    raise Bad("unwanted-report", f"a silent solve printed {text!r}")
            else:
                if [x[0] for x in lines] != list(range(it)):
                    raise Bad("report-order", f"{it} iterations were performed, reported were {[x[0] for x in lines]} ({'timed' if s['timer'] else 'untimed'})")
                tail = s["end"]
                for q, (i, x, e) in enumerate(lines):
                    if not text[e:].startswith(tail):
                        raise Bad("terminator", f"report {i} is followed by {text[e:e + 8]!r}, asked for {tail!r}")
                    nxt = text[e + len(tail) :]
                    if q + 1 < len(lines) and not nxt.startswith("Iteration"):
                        raise Bad("terminator", f"report {i} is followed by {text[e:e + 12]!r}")
                for (i, x, _), y in zip(lines, rep):
                    if clear and abs(x - y) > 1e-6 * abs(y) + 1e-11 + probs.floor(a):
                        raise Bad("untrue-report", f"iteration {i} reported max|res| = {x}, it is {y}")
                count("reports_compared", len(lines))
            if clear:
                if it != wit:
                    raise Bad("wrong-iterations", f"{it} iterations, the stopping rule asks for {wit} ({s['cond'] or 'default rule'}, tol {s['tol']}, maxIter {s['maxIter']})")
                if not probs.close(got, want):
                    raise Bad("wrong-solution", f"{got.tolist()}, expected {want.tolist()}")
            else:
                if s["cond"] is None and not p["noise"] and s["tol"] > 10 * probs.floor(a):
                    # too close to the tolerance for one exact number: it lies between those of neighbouring tolerances
                    q = 2 if s["tol"] < 1e-12 else 6
                    damp = s["body"] or (1 / s["jf"] if s["J"] else 1.0)
                    lo = probs.ref_nlls(p, a, g, s["tol"] * q, s["maxIter"], damp)[1]
                    hi = probs.ref_nlls(p, a, g, s["tol"] / q, s["maxIter"], damp)[1] if s["tol"] > 1e-12 else s["maxIter"]
                    if not lo <= it <= hi:
                        raise Bad("wrong-iterations", f"{it} iterations, the stopping rule asks for {lo} to {hi} (tol {s['tol']}, maxIter {s['maxIter']})")
                    count("iteration_counts_compared_with_range")
                else:
                    count("iteration_counts_not_compared")
                if it > (s["maxIter"] if s["cond"] is None else 30):
                    raise Bad("wrong-iterations", f"{it} iterations exceed the limit")
            count("solves_compared")
            if s["cond"]:
                count("user_condition_solves")
            if s["timer"]:
                count("timed_solves")
            if s["body"]:
                count("user_body_solves")
            if p["noise"] and clear and s["cond"] is None and it < s["maxIter"]:
                count("stopped_by_step")
            if s["print"] or s["body"]:
                best = max(best, it)
    except Bad as b:
        v = b.v
    finally:
        sys.stdout = so
    log.add(v and v["class"])
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(sc) if best >= 2 else None,
        "sample": {"solvers": sc["sol"], "ops": sc["ops"][:3]},
    }
