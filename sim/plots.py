"""Plots under simulation: seeded figures, their twins that never touch the disk, and checks of saved files."""
import hashlib
import io
import json
import os
import sys
import types

import numpy as np

from .util import Bad, rnd

MPL_T = ["png", "pdf", "svg", "eps", "ps"]
PL_T = ["html", "html", "html", "png", "png", "png", "svg", "pdf", "jpg"]
MV_T = ["png", "obj", "tiff"]
COLORS = ["r", "g", "b", "k", "c", "m"]


# ---------------------------------------------------------------- stubs of external renderers


class Renderer:
    """Stands for the static image renderer of Plotly (a browser): a deterministic picture of the figure's JSON."""

    def __init__(self):
        self.fail = 0

    def png(self, fig):
        d = fig.to_dict() if hasattr(fig, "to_dict") else fig
        h = hashlib.sha256(json.dumps(json.loads(fig.to_json()), sort_keys=True).encode()).digest()
        lay = d.get("layout", {})
        opaque = lay.get("paper_bgcolor") == "white"
        a = np.zeros((40, 60, 4), np.uint8)
        if opaque:
            a[:] = 255
        y, x = 2 + h[0] % 10, 2 + h[1] % 20
        hh, ww = 6 + h[2] % 12, 8 + h[3] % 20
        for k in range(hh * ww):
            a[y + k // ww, x + k % ww, :3] = [h[(k + c) % 32] | 1 for c in range(3)]
            a[y + k // ww, x + k % ww, 3] = 255
        # corners of the box differ from either background
        for yy, xx in ((y, x), (y + hh - 1, x + ww - 1)):
            a[yy, xx] = (10, 20, 30, 255)
        if d.get("layout", {}).get("font", {}).get("color") == "black":
            m = a[..., 3] > 0 if not opaque else np.any(a[..., :3] != 255, axis=2)
            a[m] = (0, 0, 0, 255)
        return a, (y, x, hh, ww)

    def bytes(self, fig, fmt):
        from PIL import Image

        if fmt == "png":
            b = io.BytesIO()
            Image.fromarray(self.png(fig)[0]).save(b, "png")
            return b.getvalue()
        t = json.dumps(json.loads(fig.to_json()), sort_keys=True)
        return (f"FAKE-{fmt}\n{t}\n" + "x" * 9000 + "\nEND\n").encode()

    def to_image(self, fig, format=None, *a, **kw):
        if self.fail:
            self.fail -= 1
            raise RuntimeError("renderer failed")
        return self.bytes(fig, format or "png")


REND = Renderer()


def install():
    import matplotlib

    matplotlib.use("Agg")
    matplotlib.rcParams["svg.hashsalt"] = "sim"
    matplotlib.rcParams["figure.figsize"] = (2.6, 2.0)
    matplotlib.rcParams["figure.max_open_warning"] = 0
    import plotly.io as pio
    import plotly.io._kaleido as K

    pio.to_image = K.to_image = REND.to_image
    import matplotlib.pyplot as plt  # noqa: F401

    crop = types.ModuleType("pdfCropMargins")

    def docrop(args):
        with open(args[-1], "rb") as f:
            d = f.read()
        with open(args[-1], "wb") as f:
            f.write(d + b"CROPPED\n")

    crop.crop = docrop
    sys.modules["pdfCropMargins"] = crop
    # Mayavi is not installed: a figure is a list of what was put on it, saving writes that list
    mv = types.ModuleType("mayavi")
    mlab = types.ModuleType("mayavi.mlab")

    class Fig:
        def __init__(self):
            self.items = []
            self.scene = types.SimpleNamespace(show_axes=False)

    mlab.figure = lambda fig=None, **kw: fig if fig is not None else Fig()

    def plot3d(*a, figure=None, **kw):
        figure.items.append([np.asarray(x).tolist() for x in a])

    def savefig(name, figure=None, **kw):
        with open(name, "wb") as f:
            for k in range(0, 1):
                f.write(mv_bytes(figure, name))

    mlab.plot3d = plot3d
    mlab.savefig = savefig

    def animate(func=None, delay=10, **kw):
        def wrap(*a, **k):
            return ANIM(func(*a, **k), delay)

        return wrap

    mlab.animate = animate
    mv.mlab = mlab
    mv.tools = mv.modules = mv.core = Anything()
    sys.modules["mayavi"] = mv
    sys.modules["mayavi.mlab"] = mlab


class Anything:
    """Names used in annotations only."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()

    def __call__(self, *a, **k):
        return None


class ANIM:
    def __init__(self, gen, delay):
        self.gen, self.delay = gen, delay


def mv_bytes(fig, name):
    t = json.dumps(fig.items)
    return (f"MAYAVI {os.path.splitext(name)[1]}\n{t}\n" + "x" * 9000 + "\nEND\n").encode()


# ---------------------------------------------------------------- figures


def gen_plot(rng, libs=("mpl", "mpl", "mpl", "plotly", "mayavi")):
    lib = rng.choice(libs)
    c = {"lib": lib}
    if lib == "mpl":
        c["shape"] = rng.choice([[1, 1], [1, 1], [1, 2], [2, 1]])
        c["kind"] = rng.choice(["2d", "2d", "2d", "twin", "3d"])
        c["title"] = rng.random() < 0.4
    elif lib == "plotly":
        c["shape"] = [1, 1]
        c["kind"] = "2d"
    return c


def make(c):
    if c["lib"] == "mpl":
        from tfc.utils.MakePlot import MakePlot

        r, k = c["shape"]
        if r * k == 1:
            x, y, z, t, w = "x", "$y$", "z", "T", "w"
        else:
            lab = lambda s: [[f"{s}{i}{j}" for j in range(k)] for i in range(r)]
            x, y, z, t, w = lab("x"), lab("y"), lab("z"), lab("T"), lab("w")
        kw = {}
        if c["kind"] == "3d":
            kw["zlabs"] = z
        if c["kind"] == "twin":
            kw["twinYlabs"] = w
        if c["title"]:
            kw["titles"] = t
        return MakePlot(x, y, **kw)
    if c["lib"] == "plotly":
        from tfc.utils.PlotlyMakePlot import MakePlot

        return MakePlot("x", "y")
    from tfc.utils.MayaviMakePlot import MakePlot

    return MakePlot()


def gen_change(rng, c):
    r = rng.random()
    ys = [rnd(rng, -3, 3) for _ in range(rng.choice([2, 3, 5]))]
    if c["lib"] == "mpl":
        ax = rng.randrange(c["shape"][0] * c["shape"][1])
        if r < 0.6:
            return ["line", ax, ys, rng.choice(COLORS)]
        if r < 0.75:
            return ["text", ax, "t%d" % rng.randrange(1000)]
        if r < 0.85:
            return ["size", rnd(rng, 2, 3.2, 1), rnd(rng, 1.6, 2.4, 1)]
        if r < 0.92:
            return ["draw"]
        return ["bg", rng.choice(["w", "y", "#ddeeff"])]
    if c["lib"] == "plotly":
        if r < 0.6:
            return ["line", 0, ys, rng.choice(["red", "green", "blue"])]
        if r < 0.85:
            return ["paper", rng.choice(["white", "rgba(0,0,0,0)"])]
        return ["font", rng.choice(["black", "red"])]
    return ["line", 0, ys, "r"]


def change(c, p, ch):
    if c["lib"] == "mpl":
        if ch[0] == "line":
            x = list(range(len(ch[2])))
            if c["kind"] == "3d":
                p.ax[ch[1]].plot(x, ch[2], ch[2], color=ch[3])
            elif c["kind"] == "twin" and len(ch[2]) == 3:
                p.twinAx[ch[1]].plot(x, ch[2], color=ch[3])
            else:
                p.ax[ch[1]].plot(x, ch[2], color=ch[3])
        elif ch[0] == "text":
            p.ax[ch[1]].set_title(ch[2])
        elif ch[0] == "size":
            p.PartScreen(ch[1], ch[2])
        elif ch[0] == "draw":
            p.draw()
        elif ch[0] == "bg":
            p.fig.set_facecolor(ch[1])
            p.ax[0].set_facecolor(ch[1])
    elif c["lib"] == "plotly":
        if ch[0] == "line":
            p.Scatter(x=list(range(len(ch[2]))), y=ch[2], line=dict(color=ch[3]))
        elif ch[0] == "paper":
            p.fig.update_layout(paper_bgcolor=ch[1])
        else:
            p.fig.update_layout(font=dict(color=ch[1]))
    else:
        p.plot3d(list(range(len(ch[2]))), ch[2], ch[2]) if hasattr(p, "plot3d") else p.fig.items.append([ch[2]])


# ---------------------------------------------------------------- contents


def norm(fmt, b):
    if fmt in ("ps", "eps"):
        return b"\n".join(x for x in b.split(b"\n") if not x.startswith(b"%%Title"))
    if fmt == "png":
        from PIL import Image

        im = Image.open(io.BytesIO(b))
        im.load()
        return str(im.size).encode() + im.mode.encode() + im.tobytes()
    return b


def render(fig, fmt, transparent=True):
    b = io.BytesIO()
    fig.savefig(b, bbox_inches="tight", pad_inches=0.05, dpi=300, format=fmt, transparent=transparent)
    return norm(fmt, b.getvalue())


def quick(fig):
    b = io.BytesIO()
    fig.savefig(b, dpi=60, format="png")
    return norm("png", b.getvalue())


def read(path):
    with open(path, "rb") as f:
        return f.read()


def expected(c, twin, fmt, transparent=True, tight=True, name=None):
    """What the normalised content of a saved file must be (or a callable that judges it)."""
    if c["lib"] == "mpl":
        return render(twin.fig, fmt, transparent)
    if c["lib"] == "mayavi":
        w = mv_bytes(twin.fig, name)
        return lambda b: b == w
    if fmt == "html":
        want = json.loads(twin.fig.to_json())

        def judge(b):
            t = b.decode("utf-8")
            k = t.find("Plotly.newPlot(", max(0, t.find("window.PLOTLYENV")))
            dec = json.JSONDecoder()
            pos = k + len("Plotly.newPlot(")
            got = []
            while len(got) < 3:
                while t[pos] in " \n,":
                    pos += 1
                o, pos = dec.raw_decode(t, pos)
                got.append(o)
            return got[1] == want["data"] and got[2] == want["layout"] and t.rstrip().endswith("</html>")

        return judge
    if fmt == "png" and tight:
        a, (y, x, h, w) = REND.png(twin.fig)
        box = np.ascontiguousarray(a[y : y + h, x : x + w])
        return str((w, h)).encode() + b"RGBA" + box.tobytes()
    b = REND.bytes(twin.fig, fmt)
    if fmt == "pdf" and tight:
        b += b"CROPPED\n"
    return norm(fmt, b)


def alike(path, fmt, want):
    """Whether a file is complete and nearly what is wanted: one label may sit elsewhere."""
    b = norm(fmt, read(path))
    if callable(want) or b[:6] != want[:6]:
        return False
    if fmt == "png":
        return abs(len(b) - len(want)) <= 0.2 * len(want)
    return abs(len(b) - len(want)) <= 0.01 * len(want) + 64 and b.rstrip()[-12:].split(b"\n")[-1] == want.rstrip()[-12:].split(b"\n")[-1]


def judge_file(path, fmt, want, what):
    if not os.path.exists(path):
        raise Bad("missing", f"{what} returned but {os.path.basename(path)} does not exist")
    b = read(path)
    try:
        ok = want(b) if callable(want) else norm(fmt, b) == want
    except Bad:
        raise
    except Exception as e:  # noqa: BLE001 - undecodable
        raise Bad("torn", f"{what} returned but {os.path.basename(path)} ({len(b)} bytes) cannot be read: {type(e).__name__}: {e}")
    if not ok:
        raise Bad("content", f"{what} returned but {os.path.basename(path)} ({len(b)} bytes) does not show the figure as it was")
    return b
