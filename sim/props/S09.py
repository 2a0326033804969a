"""S09: an animation shows and saves every frame once, in order; faults surface with the earlier frames complete."""
import os
import re
import shutil
import warnings

from ..util import Bad, Log, drop_each, sig
from .S08 import gen_fault

BUILD = "fs"
BATCH = 8
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 640, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is 1-4 animations of 1-3 figures (Matplotlib and Mayavi), saved or displayed, whose generators change the figure, "
    "yield anything, run another animation, or fail; output folders are absent, nested, present, hold other files or are "
    "created by somebody else during the call; disk faults hit seeded system calls, interrupts seeded lines; after a failed "
    "animation the same animation runs again. Non-trivial: at least three frames were compared; distinct by the scenario."
)
MEASURE = "hash of every file system call with its result, every outcome, all frames and all simulated waits"
REAL = ["tfc.utils.MakePlot", "tfc.utils.MayaviMakePlot", "matplotlib (Agg)", "PIL", "CPython file objects"]
STUB = ["file system calls below the output folder (faults by plan)", "time.sleep (simulated clock)", "mayavi.mlab"]
ASSUMPTIONS = ["frames are rendered without a window system; displaying means the wait the animation asks for"]
YIELDS = ["none", "none", "-1", "zero", "false", "str", "array", "np-1", "tuple", "nan", "frame"]


def gen(rng, tier):
    from .. import plots

    cs = [plots.gen_plot(rng, ("mpl", "mpl", "mpl", "mayavi")) for _ in range(rng.choice([1, 2, 2, 3]))]
    for c in cs:
        c["shape"] = [1, 1]
    anims = []

    def anim(depth):
        i = rng.randrange(len(cs))
        frames = []
        for _ in range(rng.choice([11, 12, 13]) if depth == 0 and rng.random() < 0.06 else rng.choice([0, 1, 2, 3, 3, 4, 5])):
            frames.append([[plots.gen_change(rng, cs[i]) for _ in range(rng.choice([0, 1, 1, 2]))], rng.choice(YIELDS), None])
        if frames and depth == 0 and rng.random() < 0.2:
            frames[rng.randrange(len(frames))][2] = anim(1)
        f = None
        r = rng.random()
        if r < 0.12:
            f = ["fs", [["mkdir", rng.choice([0, 0, 1]), "pre", None, 0]], None]
        elif r < 0.17:
            f = ["fs", [["mkdir", rng.choice([0, 0, 1]), "err", rng.choice(["EACCES", "ENOSPC", "EROFS"]), 0]], None]
        elif r < 0.45:
            while f is None:
                f = gen_fault(rng, "png")
            if f and f[0] == "int":
                f[1] = rng.randint(0, 60)
            if f and f[0] == "fs":
                for x in f[1]:
                    x[1] += rng.choice([0, 0, 2, 5, 9])
                if f[2] is not None:
                    f[2] *= rng.choice([1, 2, 4])
        return {
            "i": i, "frames": frames, "fail": rng.randrange(len(frames) + 1) if rng.random() < 0.12 else None,
            "dir": rng.choice(["m", "m", "p/q", "p/q/r", "have", "have/x"]), "name": rng.choice(["images", "f", "a b", "img_"]) if depth == 0 else "sub", "save": depth == 1 or rng.random() < 0.8,
            "delay": rng.choice([1, 5, 10, 33, 50, 250]), "fault": f if depth == 0 else None, "rel": rng.random() < 0.4,
            "dflt": [k for k in ("outDir", "fileName", "save", "delay") if rng.random() < 0.25] if depth == 0 and rng.random() < 0.4 else [],
        }

    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        anims.append(anim(0))
    return {"cs": cs, "anims": anims, "old": rng.random() < 0.5}


def shrink(sc):
    for c in drop_each(sc["anims"], 1):
        yield dict(sc, anims=c)
    for k, a in enumerate(sc["anims"]):

        def put(**kw):
            return dict(sc, anims=sc["anims"][:k] + [dict(a, **kw)] + sc["anims"][k + 1 :])

        for fr in drop_each(a["frames"]):
            yield put(frames=fr)
        if a["fault"]:
            yield put(fault=None)
        if a["fail"] is not None:
            yield put(fail=None)
        if a["dflt"]:
            yield put(dflt=[])
        for j, fr in enumerate(a["frames"]):
            if fr[0]:
                yield put(frames=a["frames"][:j] + [[[], fr[1], fr[2]]] + a["frames"][j + 1 :])
            if fr[2]:
                yield put(frames=a["frames"][:j] + [[fr[0], fr[1], None]] + a["frames"][j + 1 :])


class GenFail(Exception):
    pass


class Clock:
    t = 0.0


def setup():
    import time

    from .. import fsim, plots, sched

    plots.install()
    import tfc  # noqa: F401
    import tfc.utils.MakePlot  # noqa: F401
    import tfc.utils.MayaviMakePlot  # noqa: F401

    sched.install()
    fsim.lib()
    warnings.simplefilter("ignore")

    def sleep(s):
        Clock.t += max(0.0, s)

    time.sleep = sleep


def yval(k, n):
    import numpy as np

    return {
        "none": None, "-1": -1, "zero": 0, "false": False, "str": "", "array": np.array([1.0, -1.0, 2.0]), "np-1": np.int64(-1),
        "tuple": (), "nan": float("nan"), "frame": n,
    }[k]


class Run:
    def __init__(self, sc):
        from .. import plots

        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.root = os.path.join(os.environ["VERIF_SCRATCH"], "out")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "have"))
        self.keep = {}
        if sc["old"]:
            for n in ("other.txt", "images.png", "zzz000000.png"):
                q = os.path.join(self.root, "have", n)
                with open(q, "wb") as f:
                    f.write(b"old " + n.encode())
                self.keep[q] = b"old " + n.encode()
        self.main = [plots.make(c) for c in sc["cs"]]
        self.twin = [plots.make(c) for c in sc["cs"]]
        self.frames = {}  # path -> expected content, completed by some animation
        Clock.t = 0.0

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def tree(self):
        return sorted((d, tuple(sorted(f))) for d, _, f in os.walk(self.root))

    def want(self, i):
        from .. import plots

        c = self.sc["cs"][i]
        if c["lib"] == "mpl":
            return plots.render(self.twin[i].fig, "png", True)
        return plots.mv_bytes(self.twin[i].fig, "x.png")

    def is_frame(self, i, path, want, what, k):
        from .. import plots

        if not os.path.exists(path):
            raise Bad("missing", f"{what}: frame {k} ({os.path.basename(path)}) was not saved")
        b = plots.read(path)
        try:
            got = plots.norm("png", b) if self.sc["cs"][i]["lib"] == "mpl" else b
        except Exception as e:  # noqa: BLE001
            raise Bad("torn", f"{what}: frame {k} ({len(b)} bytes) cannot be read: {type(e).__name__}")
        if got != want:
            raise Bad("content", f"{what}: frame {k} does not show the figure as of that frame")

    def one(self, a, fault, nested=False):
        from .. import fsim, plots, sched

        i = a["i"]
        c = self.sc["cs"][i]
        # arguments left out have these values
        a = dict(a, **{{"outDir": "dir", "fileName": "name"}.get(k, k): {"outDir": "MyMovie", "fileName": "images", "save": True, "delay": 10}[k] for k in a["dflt"]})
        if "outDir" in a["dflt"]:
            a["rel"] = True
        d = a["dir"] if a["rel"] else os.path.join(self.root, a["dir"])
        what = f"{c['lib']} animation of {len(a['frames'])} frames {'into' if a['save'] else 'displayed, not into'} {a['dir']}/{a['name']}" + (f" with fault {fault}" if fault else "")
        st = {"y": 0, "ended": False, "failed": False, "want": [], "t": [], "nested": None}
        hooks = [sched.tls]

        def factory():
            for n, (chs, yv, sub) in enumerate(a["frames"]):
                st["t"].append(Clock.t)
                h, hooks[0].hook = getattr(hooks[0], "hook", None), None
                try:
                    if a["fail"] == n:
                        st["failed"] = True
                        raise GenFail("generator failed")
                    if sub:
                        self.one(sub, None, True)
                    for ch in chs:
                        plots.change(c, self.main[i], ch)
                        plots.change(c, self.twin[i], ch)
                    st["want"].append(self.want(i) if a["save"] else None)
                finally:
                    hooks[0].hook = h
                st["y"] = n + 1
                yield yval(yv, n)
            st["t"].append(Clock.t)
            if a["fail"] == len(a["frames"]):
                st["failed"] = True
                raise GenFail("generator failed")
            st["ended"] = True

        folder = os.path.join(self.root, a["dir"])
        before = set(os.listdir(folder)) if os.path.isdir(folder) else set()
        pat = re.compile(re.escape(a["name"]) + r"\d+\.png$")
        tree = self.tree()
        err = emsg = None
        it = sched.Interrupt(fault[1]) if fault and fault[0] == "int" else None
        kw = dict(outDir=d, fileName=a["name"], save=a["save"], delay=max(a["delay"], 10) if c["lib"] == "mayavi" else a["delay"])
        kw = {k: v for k, v in kw.items() if k not in a["dflt"]}
        disk = fsim.Disk(self.root, fault[1] if fault and fault[0] == "fs" else [], fault[2] if fault and fault[0] == "fs" else None)
        ret = None
        try:
            if nested:
                ret = self.main[i].animate(factory, **kw)
            else:
                with disk:
                    if it:
                        with it:
                            ret = self.main[i].animate(factory, **kw)
                    else:
                        ret = self.main[i].animate(factory, **kw)
        except sched.Interrupted:
            err = "Interrupted"
        except Bad:
            raise
        except GenFail as e:
            err, emsg = "GenFail", str(e)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            err, emsg = type(e).__name__, str(e)
        fired = bool(disk.fired or (it and it.fired))
        pre = fired and fault[0] == "fs" and all(x[2] == "pre" for x in fault[1]) and fault[2] is None
        self.log.add(a["dir"], a["name"], fault, err, disk.log.replace(self.root, ""), st["y"], st["t"])
        if fired:
            k = "interrupt" if it else "folder_made_by_other" if pre else "disk_full" if fault[2] is not None else "+".join(sorted({f"{x[0]}_{x[2]}" for x in fault[1]}))
            self.c("fault." + k)
        if st["failed"]:
            self.c("fault.generator_failure")
            if err is None:
                raise Bad("swallowed", f"{what}: the generator failed but the call returned normally")
        if nested and err is None and self.outer_fault:
            pass
        if err is None and c["lib"] == "mayavi" and not a["save"]:
            # displayed by Mayavi's own timer
            if not isinstance(ret, plots.ANIM) or ret.delay != max(a["delay"], 10):
                raise Bad("display", f"{what}: no animator with the requested delay was returned")
            try:
                for _ in ret.gen:
                    pass
            except GenFail:
                pass
            if not any(f[2] for f in a["frames"]) and self.tree() != tree:
                raise Bad("extra", f"{what}: displaying it wrote to the disk")
            return True
        if err is None:
            if not st["ended"]:
                raise Bad("frames", f"{what} returned after {st['y']} of {len(a['frames'])} frames")
            if fired and not pre and not nested:
                self.c("animations.returned_despite_fault")
        elif not (fired or st["failed"] or (nested and self.outer_fault) or self.sub_err):
            raise Bad("failed", f"{what} failed although nothing was wrong (after {st['y']} frames): {err}: {emsg}")
        elif pre and not st["failed"]:
            raise Bad("failed", f"{what} failed because somebody else made the folder first: {err}: {emsg}")
        if nested and err is not None:
            # a disk fault meant for the outer animation may hit the inner one
            self.sub_err = True
        if a["save"]:
            done = len(st["want"]) if err is None or (st["failed"] and err == "GenFail") else max(0, st["y"] - 1)
            for k in range(done):
                q = os.path.join(folder, f"{a['name']}{k:06d}.png")
                self.is_frame(i, q, st["want"][k], what, k)
                self.c("frames.compared")
            now = set(os.listdir(folder)) if os.path.isdir(folder) else set()
            if err is None:
                mine = {n for n in now if pat.match(n)}
                extra = mine - {f"{a['name']}{k:06d}.png" for k in range(len(a["frames"]))} - before
                if extra:
                    raise Bad("extra", f"{what} saved frames that do not exist: {sorted(extra)[:3]}")
        elif c["lib"] == "mpl":
            w = a["delay"] / 1000.0
            for k in range(1, min(st["y"], len(st["t"]))):
                dt = st["t"][k] - st["t"][k - 1]
                sub = a["frames"][k - 1][2]
                if dt < w - 1e-9 or (sub is None and dt > w + 0.025):
                    raise Bad("delay", f"{what}: waited {dt:.4f} s between frames {k - 1} and {k} instead of {w:.4f} s")
                self.c("delays.compared")
            if not any(f[2] for f in a["frames"]) and self.tree() != tree:
                raise Bad("extra", f"{what}: displaying it wrote to the disk")
        if err is None:
            self.c("animations.ok")
        else:
            self.c("animations.raised")
        for q, b in self.keep.items():
            if not os.path.exists(q) or plots.read(q) != b:
                raise Bad("damaged", f"{what} changed {os.path.basename(q)}, which is not a frame of it")
        if nested and err is not None and not st["failed"]:
            raise RuntimeError("nested animation failed")
        return err is None

    def go(self):
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            for a in self.sc["anims"]:
                self.sub_err = False
                self.outer_fault = bool(a["fault"])
                if not self.one(a, a["fault"]):
                    self.sub_err = False
                    self.outer_fault = False
                    sub_fails = any(f[2] and f[2]["fail"] is not None for f in a["frames"])
                    b = dict(a, fail=None)
                    if sub_fails:
                        b["frames"] = [[f[0], f[1], dict(f[2], fail=None) if f[2] else None] for f in a["frames"]]
                    if not self.one(b, None):
                        raise Bad("failed", "repeating the animation without a fault failed")
                    self.c("retries.ok")
        finally:
            os.chdir(cwd)


def run(sc):
    import matplotlib.pyplot as plt

    r = None
    v = None
    try:
        r = Run(sc)
        r.go()
    except Bad as e:
        v = e.v
    finally:
        plt.close("all")
        shutil.rmtree(os.path.join(os.environ["VERIF_SCRATCH"], "out"), ignore_errors=True)
    nt = r.cnt.get("frames.compared", 0) + r.cnt.get("delays.compared", 0) >= 3
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None, "sim_time": Clock.t}
