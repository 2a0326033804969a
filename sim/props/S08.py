"""S08: a plot save that returns normally has written complete, faithful files; a fault surfaces; saving again works."""
import os
import re
import shutil
import warnings

from ..util import Bad, Log, drop_each, sig

BUILD = "fs"
BATCH = 8
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 640, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history over 1-3 figures (Matplotlib: subplots, twin axes, 3-D; Plotly; Mayavi) of changes and saves "
    "(every file type, type by suffix or argument, transparency, pickles, both at once, over existing files), with simulated "
    "disk faults at seeded system calls (open, write, close, rename, directory, full disk after n bytes, short writes, "
    "interrupted calls), failing renderers and interrupts, each followed by a save without fault. Non-trivial: at least one "
    "fault fired and at least two saved files were compared with the figure's undisturbed twin; distinct by the scenario."
)
MEASURE = "hash of every file system call with its result, the length of every accepted file (pickles excepted) and every outcome"
REAL = ["tfc.utils.MakePlot", "tfc.utils.PlotlyMakePlot", "tfc.utils.MayaviMakePlot", "matplotlib", "plotly (html)", "PIL", "pickle", "CPython file objects"]
STUB = ["file system calls below the output folder (faults by plan)", "Plotly's static image renderer", "pdfCropMargins", "mayavi.mlab"]
ASSUMPTIONS = [
    "a write that is cut short without any error is only injected where the writing library checks for it (not into PIL's image encoder)",
    "data lost after a successful close is not simulated",
]


def gen_fault(rng, fmt):
    r = rng.random()
    if r < 0.45:
        return None
    if r < 0.53:
        return ["int", rng.randint(0, 14)]
    if r < 0.70:
        return ["fs", [], rng.choice([0, 1, 100, 3000, 8192, 9000, 20000, 60000])]
    fs = []
    for _ in range(rng.choice([1, 1, 2])):
        op = rng.choice(["open", "write", "write", "write", "close", "close", "rename"])
        nth = rng.choice([0, 0, 1, 2, 3, 5, 8]) if op == "write" else rng.choice([0, 0, 1])
        act = "err"
        if op == "write":
            act = rng.choice(["err", "err", "sticky", "short", "eintr"])
            if act == "short" and fmt in ("png", "jpg"):
                act = "err"
        err = rng.choice(["EIO", "ENOSPC", "EDQUOT", "EACCES"] if op != "open" else ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO"])
        if act == "eintr":
            act, err = "err", "EINTR"
        if act == "short":
            err = None
        fs.append([op, nth, act, err, rng.choice([1, 10, 500])])
    return ["fs", fs, None]


def gen(rng, tier):
    from .. import plots

    cs = [plots.gen_plot(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    names = ["a", "b", "sub/c", "d.x"]
    for _ in range(rng.randint(5, 12)):
        i = rng.randrange(len(cs))
        c = cs[i]
        r = rng.random()
        if r < 0.35:
            ops.append(["ch", i, plots.gen_change(rng, c)])
            continue
        fmt = rng.choice({"mpl": plots.MPL_T, "plotly": plots.PL_T, "mayavi": plots.MV_T}[c["lib"]])
        how = rng.choice(["arg", "arg", "suffix", "none"] if c["lib"] == "mpl" else ["arg", "arg", "arg", "suffix", "suffix", "suffix", "none"])
        if how == "none":
            fmt = "png" if c["lib"] == "plotly" else "pdf"
        n = rng.choice(names)
        if how == "none" and "." in n and c["lib"] == "mpl":
            n = "a"
        tr = rng.choice([True, True, None, False, False])
        rf = rng.random() < 0.06 and c["lib"] == "plotly"
        if c["lib"] == "mpl" and r > 0.70:
            kind = rng.choice(["pickle", "pickle", "all", "reload"])
            ops.append([kind, i, n, fmt, how, tr, gen_fault(rng, "png" if kind == "all" and fmt == "png" else fmt)])
        else:
            ops.append(["save", i, n, fmt, how, tr, ["rend"] if rf else gen_fault(rng, fmt)])
    return {"cs": cs, "ops": ops}


def shrink(sc):
    for c in drop_each(sc["ops"], 1):
        yield dict(sc, ops=c)
    for k, o in enumerate(sc["ops"]):
        if o[0] != "ch" and o[6]:
            f = o[6]
            alts = [None]
            if f[0] == "fs" and len(f[1]) > 1:
                alts += [["fs", [x], f[2]] for x in f[1]]
            for a in alts:
                yield dict(sc, ops=sc["ops"][:k] + [o[:6] + [a]] + sc["ops"][k + 1 :])


def setup():
    from .. import fsim, plots, sched

    plots.install()
    import tfc  # noqa: F401
    import tfc.utils.MakePlot  # noqa: F401
    import tfc.utils.MayaviMakePlot  # noqa: F401
    import tfc.utils.PlotlyMakePlot  # noqa: F401

    sched.install()
    fsim.lib()
    warnings.simplefilter("ignore")
    import sys

    sys.unraisablehook = lambda *_: None


class Run:
    def __init__(self, sc):
        from .. import plots

        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.root = os.path.join(os.environ["VERIF_SCRATCH"], "out")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "sub"))
        self.main = [plots.make(c) for c in sc["cs"]]
        self.twin = [plots.make(c) for c in sc["cs"]]
        self.reloaded = set()
        self.disk = {}  # path -> bytes that must still be there

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def paths(self, i, kind, n, fmt, how):
        p = os.path.join(self.root, n)
        arg = p if how != "suffix" else p + "." + fmt
        out = []
        if kind in ("save", "all"):
            out.append(([p + "." + fmt] if how != "none" or self.sc["cs"][i]["lib"] != "mpl" else [p, p + ".pdf"], fmt))
        if kind in ("pickle", "reload", "all"):
            out.append(([arg + ".pickle"], "pickle"))
        return arg, out

    def call(self, i, kind, arg, fmt, how, tr):
        p = self.main[i]
        lib = self.sc["cs"][i]["lib"]
        ft = {"fileType": fmt} if how == "arg" else {}
        if kind in ("pickle", "reload"):
            return p.savePickle(arg)
        op = {} if tr is None else {"transparent" if lib == "mpl" else "tight": tr}  # by default both are on
        if lib == "mpl":
            return (p.save if kind == "save" else p.saveAll)(arg, **op, **ft)
        if lib == "plotly":
            kw = {}
            if fmt == "html":
                kw = {"include_plotlyjs": bool(tr) and len(arg) % 2 == 0}
            return p.save(arg, **op, **ft, **kw)
        return p.save(arg, **ft)

    def attempt(self, op, fault):
        """One save. Returns whether it returned normally."""
        from .. import fsim, plots, sched

        kind, i, n, fmt, how, tr, _ = op
        c = self.sc["cs"][i]
        arg, outs = self.paths(i, kind, n, fmt, how)
        what = f"{c['lib']} {kind} of {n} as {fmt} ({how})" + (f" with fault {fault}" if fault else "")
        for ps, _f in outs:
            for q in ps:
                self.disk.pop(q, None)
                if how == "none" and os.path.exists(q):
                    os.remove(q)
        fs = fault[1] if fault and fault[0] == "fs" else []
        bud = fault[2] if fault and fault[0] == "fs" else None
        if fault and fault[0] == "rend":
            plots.REND.fail = 1
        err = None
        it = sched.Interrupt(fault[1]) if fault and fault[0] == "int" else None
        d = fsim.Disk(self.root, fs, bud)
        try:
            with d:
                if it:
                    with it:
                        self.call(i, kind, arg, fmt, how, tr)
                else:
                    self.call(i, kind, arg, fmt, how, tr)
        except sched.Interrupted:
            err = "Interrupted"
        except (Exception, SystemExit) as e:  # noqa: BLE001 - any error report counts as raising
            err = type(e).__name__
            emsg = str(e)
        rendfail = bool(fault and fault[0] == "rend" and not plots.REND.fail)
        plots.REND.fail = 0
        fired = d.fired or (it and it.fired) or rendfail
        # a pickled figure's length varies by a few bytes with the addresses of its objects
        self.log.add(kind, i, n, fmt, how, tr, fault, err, re.sub(r"(write \S*\.pickle) [0-9]{4,}", r"\1 n", d.log))
        if fired:
            k = "renderer" if rendfail else "interrupt" if it and it.fired else "disk_full" if bud is not None else "+".join(sorted({f"{x[0]}_{'interrupted' if x[3] == 'EINTR' else x[2]}" for x in fs}))
            self.c("fault." + k)
        if err:
            if not fired:
                raise Bad("failed", f"{what} failed although nothing was wrong: {err}: {emsg}")
            self.c("saves.raised")
            return False
        self.c("saves.returned_despite_fault" if fired else "saves.ok")
        for ps, f in outs:
            have = [q for q in ps if os.path.exists(q)]
            q = have[0] if have else ps[0]
            if f == "pickle":
                b = self.check_pickle(i, q, what, kind == "reload")
            else:
                want = plots.expected(c, self.twin[i], f, tr is not False, tr is not False, q)
                try:
                    b = plots.judge_file(q, f, want, what)
                except Bad as e:
                    # Matplotlib itself sometimes misplaces a label of a figure it loaded from a pickle
                    if i not in self.reloaded or e.v["class"] != "content" or not plots.alike(q, f, want):
                        raise
                    b = plots.read(q)
                    self.c("files.of_reloaded_figures_alike")
                if f == "html" and tr and len(arg) % 2 == 0:
                    from plotly.offline import get_plotlyjs

                    if get_plotlyjs().encode() not in b:
                        raise Bad("content", f"{what}: the page lacks the script it promises")
            self.disk[q] = b
            self.log.add(0 if f == "pickle" else len(b))
            self.c("files.compared")
        return True

    def check_pickle(self, i, q, what, take):
        import pickle

        import matplotlib.pyplot as plt

        from .. import plots

        if not os.path.exists(q):
            raise Bad("missing", f"{what} returned but {os.path.basename(q)} does not exist")
        b = plots.read(q)
        try:
            o = pickle.loads(b)
            a = plots.quick(o.fig)
            shape = (len(o.ax), len(getattr(o, "twinAx", [])), type(o).__name__)
        except Exception as e:  # noqa: BLE001
            raise Bad("torn", f"{what} returned but {os.path.basename(q)} ({len(b)} bytes) cannot be loaded: {type(e).__name__}: {e}")
        t = self.twin[i]
        same = a == plots.quick(t.fig)
        if not same and i in self.reloaded:
            same = a[:6] == plots.quick(t.fig)[:6]
            self.c("files.of_reloaded_figures_alike")
        if not same or shape != (len(t.ax), len(getattr(t, "twinAx", [])), type(t).__name__):
            raise Bad("content", f"{what} returned but the figure loaded from {os.path.basename(q)} differs from the one saved")
        if any(x not in o.fig.axes for x in list(o.ax) + list(getattr(o, "twinAx", []))):
            raise Bad("content", f"{what}: the axes of the loaded plot are not those of its figure")
        if take:
            plt.close(self.main[i].fig)
            self.main[i] = o
            self.reloaded.add(i)
        else:
            plt.close(o.fig)
        return b

    def go(self):
        from .. import plots

        for op in self.sc["ops"]:
            if op[0] == "ch":
                plots.change(self.sc["cs"][op[1]], self.main[op[1]], op[2])
                plots.change(self.sc["cs"][op[1]], self.twin[op[1]], op[2])
                continue
            if not self.attempt(op, op[6]):
                if not self.attempt(op, None):
                    raise Bad("failed", f"saving again without a fault failed: {op}")
                self.c("retries.ok")
            for q, b in self.disk.items():
                if not os.path.exists(q) or plots.read(q) != b:
                    raise Bad("damaged", f"{op[:5]} damaged {os.path.basename(q)}, which an earlier save had completed")


def run(sc):
    import matplotlib.pyplot as plt

    r = None
    v = None
    try:
        r = Run(sc)
        r.go()
    except Bad as e:
        v = e.v
    finally:
        plt.close("all")
        shutil.rmtree(os.path.join(os.environ["VERIF_SCRATCH"], "out"), ignore_errors=True)
    nf = sum(n for k, n in r.cnt.items() if k.startswith("fault."))
    nt = nf >= 1 and r.cnt.get("files.compared", 0) >= 2
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
