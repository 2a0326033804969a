"""S05: what a solve returns depends only on the problem it was given."""
from ..util import Bad, Log, drop_each, rnd, sig

BUILD = "none"
BATCH = 12
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 600, "seconds": 80, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history of linear and nonlinear least-squares solves (functions and reusable solver objects; flat "
    "arrays, dictionaries and dictionaries of matrices; pinv/lstsq; automatic and user Jacobians; constant arguments given in "
    "any order through option lists shared between calls; partially evaluated functions kept and called later), mixed with "
    "solves whose residual fails while being traced, solves that are interrupted, and rejected solves; in part of the cases "
    "split over 2-3 simulated threads. Non-trivial: at least two compared solutions; distinct by the scenario."
)
MEASURE = "hash of all solutions and outcomes, and of every thread switch with its code location"
REAL = ["tfc.utils.TFCUtils (LS, LsClass, NLLS, NllsClass, pe, pejit, TFCDict, TFCDictRobust)", "jax", "XLA CPU"]
STUB = ["thread scheduler (seeded)", "asynchronous interrupt (raised at a seeded line)", "residual functions (seeded, failing on demand)"]
ASSUMPTIONS = [
    "problems are well conditioned with known solutions; solutions are compared with a numpy reference to 1e-7",
    "caller threads switch at lines of the repository's code outside jax tracing",
]


FORMS = ["arr", "arr", "one", "pair", "dict", "fixed", "fixed1", "through"]


def form(how, r, x, s):
    """The value a partially evaluated function returns: containers, and parts that depend on only some of its arguments."""
    if how == "one":
        return (r,)
    if how == "pair":
        return [r, {"z": 2 * r}]
    if how == "dict":
        return {"z": r, "a": r[:1], "n": None}
    if how == "fixed":
        return (x * x, r)
    if how == "fixed1":
        return x * x
    if how == "through":
        return {"r": r, "s": s, "t": (x,)}
    return r


def gen(rng, tier):
    from .. import probs

    ps = [probs.gen(rng) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.12:
        ps.append(probs.gen(rng, nl=False, kinds=["np", "jax"], cplx=True))
    lists = [[2, 1], [3, 1], [1], [3, 2], [1, 2], [3, 2, 1], [], [2]]
    rng.shuffle(lists)
    lists = lists[: rng.choice([1, 2, 3])]
    threaded = rng.random() < 0.25
    nsol = [0]
    npe = [0]

    def opts(p):
        o = {"method": rng.choice(["pinv", "lstsq"]), "J": rng.random() < 0.25, "list": rng.randrange(len(lists)) if rng.random() < 0.6 else None}
        if p["nl"]:
            o["tol"] = rng.choice([1e-6, 1e-8, 1e-9])
            o["maxIter"] = rng.choice([50, 50, 1, 2, 3])
        o["jf"] = rng.choice([1.0, 0.8, 1.25, 2.0]) if o["J"] else 1.0
        if p["nl"] and o["jf"] != 1:
            o["maxIter"] = rng.choice([1, 2, 3, 4])
        return o

    def guess(p):
        r = rng.random()
        if r < 0.3:
            return [0.0] * p["m"]
        if r < 0.36 and not p["cplx"]:
            return list(p["u"])
        return [rnd(rng, -0.2, 0.2) for _ in range(p["m"])]

    def var():
        # which of the problem's arguments differ from its standard ones
        return [rng.choice([0.0, 0.0, 0.1, -0.1]), rng.choice([None, None, 1.3])]

    def solve():
        i = rng.randrange(len(ps))
        return ["nlls" if ps[i]["nl"] else "ls", i, opts(ps[i]), guess(ps[i]), var(), rng.random() < 0.7]

    def alt():
        # arguments of another structure, size or type than those before
        return rng.choice([None, None, None, "swap", "swap", ["points", rng.choice([1, 2, 4])], "number"])

    made = []

    def op():
        r = rng.random()
        if r < 0.30:
            return solve()
        if r < 0.45 or (r < 0.7 and not made):
            i = rng.randrange(len(ps))
            nsol[0] += 1
            made.append((nsol[0] - 1, i))
            return ["mk", nsol[0] - 1, i, opts(ps[i]), guess(ps[i]), var(), rng.random() < 0.7]
        if r < 0.70:
            s, i = rng.choice(made)
            return ["run", s, guess(ps[i]), rng.choice([0.0, 0.1, -0.1]), rng.choice([None, 1.3]), alt()]
        if r < 0.76:
            i = rng.randrange(len(ps))
            npe[0] += 1
            return ["pe", npe[0] - 1, i, rng.randrange(len(lists)), rng.random() < 0.5, var(), rng.random() < 0.8, rng.choice(FORMS)]
        if r < 0.82 and npe[0]:
            return ["callpe", rng.randrange(npe[0]), guess(ps[0]), var(), alt()]
        if r < 0.88:
            return ["fail", rng.randint(0, 3), solve()]
        if r < 0.91 and made:
            s, i = rng.choice(made)
            return ["failrun", s, rng.choice(["short", "args"])]
        if r < 0.95 and not threaded:
            inner = solve() if rng.random() < 0.6 or not made else ["run", rng.choice(made)[0], guess(ps[0]), 0.1, None, None]
            return ["int", rng.randint(0, 45), inner]
        return ["badmethod", rng.randrange(len(ps))]

    if threaded:
        ths = []
        for _ in range(rng.choice([2, 2, 3])):
            made.clear()
            npe[0] = 0
            nsol[0] = 0
            ths.append([op() for _ in range(rng.randint(1, 3))])
        plan = [[rng.choice([0, 1, 2, 3, 5, 8, 13, 25]), rng.randint(0, 5)] for _ in range(rng.randint(4, 30))]
    else:
        ths = [[op() for _ in range(rng.randint(3, 7))]]
        plan = []
    return {"ps": ps, "lists": lists, "threads": ths, "plan": plan}


def shrink(sc):
    if len(sc["threads"]) > 1:
        for k in range(len(sc["threads"])):
            yield dict(sc, threads=sc["threads"][:k] + sc["threads"][k + 1 :])
    for k, t in enumerate(sc["threads"]):
        for c in drop_each(t):
            yield dict(sc, threads=sc["threads"][:k] + [c] + sc["threads"][k + 1 :])
    for c in drop_each(sc["plan"]):
        yield dict(sc, plan=c)


def setup():
    import jax

    jax.config.update("jax_cpu_enable_async_dispatch", False)
    import tfc  # noqa: F401
    import tfc.utils.TFCUtils  # noqa: F401

    from .. import sched

    sched.install()


def run(sc):
    import jax
    import numpy as np
    from tfc.utils import LS, NLLS, LsClass, NllsClass, pejit
    from tfc.utils.TFCUtils import pe

    from .. import probs, sched

    n = {}
    log = Log()

    def count(k, d=1):
        n[k] = n.get(k, 0) + d

    lists = [list(x) for x in sc["lists"]]
    ps = sc["ps"]

    def kw(p, o):
        k = {"method": o["method"]}
        if o["J"]:
            k["J"] = probs.jacobian(p, o["jf"])
        if o["list"] is not None:
            k["constant_arg_nums"] = lists[o["list"]]
        if p["cplx"]:
            k["holomorphic"] = True
        if p["nl"]:
            k["tol"] = o["tol"]
            k["maxIter"] = o["maxIter"]
        return k

    def lists_ok(what):
        if lists != sc["lists"]:
            raise Bad("options-changed", f"{what} changed the caller's option list: {lists}, given {sc['lists']}")

    def watch(what, f, *inputs):
        snap = probs.snapshot(inputs)
        try:
            return f()
        finally:
            if not probs.unchanged(inputs, snap):
                raise Bad("inputs-changed", f"{what} changed the arrays or dictionaries it was given")
            lists_ok(what)

    def other(p, alt, c, shift, scale, ok_swap=True):
        """Arguments of another form, where the arguments held constant (c) allow it: problem, arguments, swapped."""
        if alt == "swap" and ok_swap and p["kind"] not in ("np", "jax"):
            count("run_again.keys_in_another_order")
            return p, probs.args(p, shift, scale), True
        if isinstance(alt, list) and not {1, 2} & set(c):
            k = p["n"] + alt[1]
            q = dict(p, n=k, x=[round(-0.95 + 1.9 * (j + 0.3) / k, 4) for j in range(k)], noise=[])
            count("run_again.more_points")
            return q, probs.args(q, shift, scale), False
        if alt == "number" and not {2, 3} & set(c) and p["sform"] in ("int", "float", "arr"):
            v = 2 if p["sform"] == "float" else 1.75
            a = probs.args(dict(p, sform="float"), shift, v)
            a[2] = np.array([2]) if p["sform"] == "arr" else v
            if p["sform"] == "arr":
                a[1] = probs.args(dict(p, sform="float"), shift, 2.0)[1]
            count("run_again.another_number_type")
            return p, a, False
        return p, probs.args(p, shift, scale), False

    def cmp(what, p, a, got, g, o, it=None, swap=False):
        got = probs.flat(p, got, swap)
        log.add(what, got, it)
        if p["nl"]:
            want, wit, _, clear = probs.ref_nlls(p, a, g, o["tol"], o["maxIter"], 1 / o["jf"])
            if clear and int(it) != wit:
                raise Bad("wrong-iterations", f"{what}: {int(it)} iterations, the problem needs {wit}")
            if not clear:
                count("iteration_counts_not_compared")
                # one more or fewer step at the threshold changes the solution by about tol
                ok = probs.close(got, want, 1e-3)
            else:
                ok = probs.close(got, want)
        else:
            want = probs.ref_ls(p, a, g, 1 / o["jf"])
            ok = probs.close(got, want)
        count("solutions_compared")
        count("solution." + p["kind"])
        if not ok:
            raise Bad("wrong-solution", f"{what} ({p['kind']}, {o}): {got.tolist()}, expected {want.tolist()}")

    def consts(o):
        return sc["lists"][o["list"]] if o["list"] is not None else []

    shared = {}
    kept = []

    def residual(i, share, hook=None):
        # callers use one residual function for many solves
        if not share or hook is not None:
            return probs.residual(ps[i], hook)
        if i not in shared:
            shared[i] = probs.residual(ps[i])
        return shared[i]

    def outs(f, how):
        return f if how == "arr" else lambda xi, x, c, s: form(how, f(xi, x, c, s), x, s)

    def keep(what, x):
        kept.append((what, x, probs.snapshot(x)))

    def solve(op, hook=None):
        _, i, o, g, (shift, scale), share = op
        p = ps[i]
        xi = probs.split(p, g)
        a = probs.args(p, shift, scale, jaxy=i % 2 == 0)
        r = residual(i, share, hook)
        if p["nl"]:
            s, it = watch("NLLS", lambda: NLLS(xi, r, *a, **kw(p, o)), xi, a)
            cmp("NLLS", p, a, s, g, o, it)
        else:
            s = watch("LS", lambda: LS(xi, r, *a, **kw(p, o)), xi, a)
            cmp("LS", p, a, s, np.zeros(p["m"]), o)
        keep("solution of " + op[0], s)
        keep("initial guess of " + op[0], xi)

    def apply(op, S, F):
        k = op[0]
        if k in ("ls", "nlls"):
            solve(op)
        elif k == "mk":
            _, s, i, o, g, (shift, scale), share = op
            p = ps[i]
            xi = probs.split(p, g)
            a = probs.args(p, shift, scale)
            r = residual(i, share)
            cls = NllsClass if p["nl"] else LsClass
            S[s] = (watch(cls.__name__, lambda: cls(xi, r, *a, **kw(p, o)), xi, a), p, o, a)
        elif k == "run":
            _, s, g, shift, scale, alt = op
            if s not in S:
                return
            obj, p, o, base = S[s]
            g = (g * 3)[: p["m"]]
            c = consts(o)
            p, a, swap = other(p, alt, c, shift, scale, not o["J"])
            a = [base[j] if j + 1 in c else a[j] for j in range(3)]
            if (2 in c) != (3 in c) and p["nl"]:
                a = base  # a consistent root is needed
            xi = probs.split(p, g, swap)
            passed = [a[j] for j in range(3) if j + 1 not in c]
            out = watch("run", lambda: obj.run(xi, *passed), xi, passed)
            count("solver_object_runs")
            keep("solution of run", out[0] if p["nl"] else out)
            keep("initial guess of run", xi)
            if p["nl"]:
                cmp("NllsClass.run", p, a, out[0], g, o, out[1], swap)
            else:
                cmp("LsClass.run", p, a, out, g, o, None, swap)
        elif k == "pe":
            _, f, i, li, jit, (shift, scale), share, how = op
            p = ps[i]
            a = probs.args(p, shift, scale)
            xi = probs.split(p, p["guess"])
            dec = (pejit if jit else pe)(xi, *a, constant_arg_nums=lists[li])
            F[f] = (watch("pe", lambda: dec(outs(residual(i, share), how)), xi, a), p, a, list(sc["lists"][li]), how)
        elif k == "callpe":
            _, f, g, (shift, scale), alt = op
            if f in F:
                fn, p, a, c, how = F[f]
                p, b, swap = other(p, alt, c, shift, scale)
                a = [a[j] if j + 1 in c else b[j] for j in range(3)]
                g = (g * 4)[: p["m"]]
                xi = probs.split(p, g, swap)
                passed = [a[j] for j in range(3) if j + 1 not in c]
                got = watch("partially evaluated function", lambda: fn(xi, *passed), xi, passed)
                want = form(how, probs.ref_res(p, np.array(g), a), np.array(a[0]), a[2])
                count("partially_evaluated_calls")
                count("output." + how)
                gl, gt = jax.tree_util.tree_flatten(got)
                wl, wt = jax.tree_util.tree_flatten(want)
                if gt != wt:
                    raise Bad("wrong-structure", f"function partially evaluated in {c}: returned {gt}, the function returns {wt}")
                log.add("pe", *[np.array(x) for x in gl])
                count("solutions_compared")
                for x, y in zip(gl, wl):
                    if not probs.close(x, y, 1e-9):
                        raise Bad("wrong-residual", f"function partially evaluated in {c}: {np.array(x).tolist()}, expected {np.array(y).tolist()}")
        elif k == "fail":
            _, at, inner = op
            c = [0]

            def hook():
                c[0] += 1
                if c[0] == at + 1:
                    raise probs.InjectedError("injected residual failure")

            try:
                solve(inner, hook)
            except probs.InjectedError:
                count("fault.residual_failure")
                log.add("failed")
        elif k == "failrun":
            _, s, how = op
            if s not in S:
                return
            obj, p, o, _ = S[s]
            a = probs.args(p)
            passed = [a[j] for j in range(3) if j + 1 not in consts(o)]
            xi = probs.split(p, p["guess"])
            try:
                if how == "short":
                    obj.run(xi, *passed, 1.0, 2.0)
                else:
                    obj.run(None, *passed)
                # accepting odd arguments is not this property's business
            except (Exception, SystemExit):
                count("fault.failed_run")
            lists_ok("failed run")
        elif k == "int":
            try:
                with sched.Interrupt(op[1]) as it:
                    apply(op[2], S, F)
            except sched.Interrupted:
                pass
            if it.fired:
                count("fault.interrupt")
            lists_ok("interrupted solve")
        elif k == "badmethod":
            p = ps[op[1]]
            try:
                (NLLS if p["nl"] else LS)(probs.split(p, p["guess"]), probs.residual(p), *probs.args(p), method="qr")
            except (Exception, SystemExit):
                count("fault.rejected_solve")

    def guard(op, S, F):
        try:
            apply(op, S, F)
        except Bad:
            raise
        except (Exception, SystemExit) as e:
            raise Bad("exception", f"{op[0]}: {type(e).__name__}: {str(e)[:600]}")

    v = None
    try:
        if len(sc["threads"]) == 1:
            S, F = {}, {}
            for op in sc["threads"][0]:
                guard(op, S, F)
        else:
            s = sched.Sched(sc["plan"])
            logs = [Log() for _ in sc["threads"]]

            def body(k):
                S, F = {}, {}
                for op in sc["threads"][k]:
                    guard(op, S, F)

            res = s.run([lambda k=k: body(k) for k in range(len(sc["threads"]))])
            log.add(s.trace)
            count("thread_switches", s.switches)
            count("threaded_runs")
            if s.free:
                count("schedules_released")
            for r in res:
                if r[0] == "exc":
                    raise r[1]
        lists_ok("the run")
        for what, x, snap in kept:
            if not probs.unchanged(x, snap):
                raise Bad("changed-later", f"{what} changed after the call that returned it or was given it")
    except Bad as b:
        v = b.v
    log.add(v and v["class"])
    return v, {
        "counters": n,
        "digest": log.digest(),
        "sig": sig(sc) if n.get("solutions_compared", 0) >= 2 else None,
        "sample": {"problems": [[p["kind"], "nonlinear" if p["nl"] else "linear"] for p in ps], "lists": sc["lists"], "threads": [[o[:3] for o in t] for t in sc["threads"]]},
    }
