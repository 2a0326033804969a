"""S10: a constraint-graph report is complete and right, or the call raises; repeating it works."""
import itertools
import os
import re
import shutil
import stat
import warnings
from html.parser import HTMLParser

from ..util import Bad, Log, drop_each, sig

BUILD = "fs"
BATCH = 8
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 640, "seconds": 75, "recheck": 2},
    "thorough": {"runs": 20000, "seconds": 1500, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is a seeded history of 1-4 reports over 1-2 constraint sets (2-4 variables, 0-4 constraints, all or valid graphs, "
    "with or without PDFs) into absent, nested, present or reused folders, and of single pages; simulated disk faults hit "
    "seeded system calls, somebody else makes folders during the call, the drawing program is missing, fails, dies or leaves "
    "half an image at seeded invocations, interrupts hit seeded lines, or two reports are written by simulated threads. "
    "After a failure the report is written again. Non-trivial: at least one complete report was parsed and compared with the "
    "constraint set; distinct by the scenario."
)
MEASURE = "hash of every file system call of the process with its result, every drawing-program invocation and outcome, thread switches"
REAL = ["tfc.utils.TFCUtils.ComponentConstraintGraph", "tfc.utils.Html", "graphviz (Python)", "dot (Graphviz)", "yattag", "CPython file objects"]
STUB = ["file system calls below the output folder (faults by plan)", "a wrapper around dot that fails by plan", "thread scheduler (seeded)"]
ASSUMPTIONS = ["a drawing program that reports success has written its output"]


def gen(rng, tier):
    gs = []
    for _ in range(rng.choice([1, 2])):
        n = rng.choice([2, 2, 3, 3, 4])
        N = rng.sample(["x", "y", "z", "u", "phi 1", "w_2"] + (["X", "u:1", "u:n", "\\nu", "<b>", 'q"', "a & b", "\u03c6"] if rng.random() < 0.4 else []), n)
        E = []
        for k in range(rng.choice([0, 1, 2, 2, 3, 3, 4] if tier != "quick" else [0, 1, 2, 2, 3])):
            a, b = rng.sample(N, 2)
            E.append({"name": rng.choice(["k", "c", "e ", "k", "c", "e ", "\\lambda", "<i>", "a:b ", "< & "]) + str(k), "node0": a, "node1": b})
        gs.append([N, E])

    def report(g=None, d=None):
        return {
            "op": "report", "g": rng.randrange(len(gs)) if g is None else g, "dir": rng.choice(["r", "r", "s", "p/q", "have", "p/q/r"]) if d is None else d,
            "all": rng.random() < 0.4, "pdf": rng.random() < 0.2, "rel": rng.random() < 0.3, "fault": None,
        }

    if rng.random() < 0.15:
        return {"gs": gs, "ops": [], "threads": [report(d="t/a"), report(d=rng.choice(["t/b", "t/a/b"]))], "plan": [[rng.choice([0, 1, 2, 5, 11]), rng.randint(0, 5)] for _ in range(rng.randint(2, 25))]}
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.15:
            o = {"op": "page", "dir": rng.choice(["", "r", "n/m"]), "n": rng.choice(["a.html", "b.html"]), "text": [rng.choice(["one", "two < three", "a & b", "é", "x" * 9000]) for _ in range(3)], "fault": None, "rel": True}
        else:
            o = report()
        r = rng.random()
        if r < 0.25:
            o["fault"] = ["dot", rng.choice([0, 0, 1, 2, 3, 5, 8]), rng.choice(["exit1", "exit1", "kill", "half", "missing"])]
        elif r < 0.35:
            o["fault"] = ["fs", [["mkdir", rng.choice([0, 1, 2, 2, 3]), "pre", None, 0]], None]
        elif r < 0.45:
            o["fault"] = ["int", rng.randint(0, 90)]
        elif r < 0.55:
            o["fault"] = ["fs", [], rng.choice([0, 10, 300, 900, 2000, 5000])]
        elif r < 0.85:
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(["open", "open", "write", "write", "close", "close", "mkdir", "unlink", "read"])
                act = rng.choice(["err", "err", "sticky", "short", "eintr"]) if op == "write" else "err"
                err = rng.choice(["EIO", "ENOSPC", "EACCES"])
                if act == "eintr":
                    act, err = "err", "EINTR"
                fs.append([op, rng.choice([0, 0, 1, 2, 3, 4, 6, 9, 12]), act, err if act != "short" else None, rng.choice([1, 20])])
            o["fault"] = ["fs", fs, None]
        ops.append(o)
    return {"gs": gs, "ops": ops, "threads": [], "plan": []}


def shrink(sc):
    for c in drop_each(sc["ops"], 1):
        yield dict(sc, ops=c)
    for c in drop_each(sc["plan"]):
        yield dict(sc, plan=c)
    for k, o in enumerate(sc["ops"]):
        if o["fault"]:
            yield dict(sc, ops=sc["ops"][:k] + [dict(o, fault=None)] + sc["ops"][k + 1 :])
    for k, (N, E) in enumerate(sc["gs"]):
        for e in drop_each(E):
            yield dict(sc, gs=sc["gs"][:k] + [[N, e]] + sc["gs"][k + 1 :])


DOT = """#!/bin/sh
D="$VERIF_SCRATCH/dot"
n=$(cat "$D/n")
echo $((n+1)) > "$D/n"
read -r at mode < "$D/plan"
if [ "$n" = "$at" ]; then
  echo fired > "$D/fired"
  case "$mode" in
    exit1) echo "Error: simulated failure" >&2; exit 1 ;;
    kill) kill -9 $$ ;;
    half) %s "$@"; for a in "$@"; do case "$a" in -T*) t=${a#-T} ;; esac; f=$a; done
      head -c 60 "$f.$t" > "$f.$t.tmp"; mv "$f.$t.tmp" "$f.$t"; echo "write error" >&2; exit 1 ;;
  esac
fi
exec %s "$@"
"""


def setup():
    from .. import fsim, sched

    d = os.path.join(os.environ["VERIF_SCRATCH"], "dot")
    os.makedirs(os.path.join(d, "bin"))
    real = shutil.which("dot")
    p = os.path.join(d, "bin", "dot")
    with open(p, "w") as f:
        f.write(DOT % (real, real))
    os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    os.environ["PATH"] = os.path.join(d, "bin") + ":/usr/bin:/bin"
    import graphviz  # noqa: F401
    import tfc  # noqa: F401
    import tfc.utils.Html  # noqa: F401
    from tfc.utils import TFCUtils  # noqa: F401

    sched.install()
    fsim.lib()
    warnings.simplefilter("ignore")


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.img, self.maps, self.areas, self.open, self.seen = [], [], [], [], set()

    def handle_starttag(self, t, a):
        a = dict(a)
        self.seen.add(t)
        if t == "img":
            self.img.append(a)
        elif t == "map":
            self.maps.append(a)
        elif t == "area":
            self.areas.append(a)
        if t in ("html", "body"):
            self.open.append(t)

    handle_startendtag = handle_starttag

    def handle_endtag(self, t):
        if t in self.open:
            self.open.remove(t)


def parse_page(path, what):
    if not os.path.exists(path):
        raise Bad("missing", f"{what}: {os.path.basename(path)} does not exist")
    with open(path, encoding="utf-8", errors="replace") as f:
        t = f.read()
    p = Page()
    p.feed(t)
    if p.open or "html" not in p.seen or "body" not in p.seen:
        raise Bad("torn", f"{what}: {os.path.basename(path)} is incomplete ({len(t)} characters)")
    return p, t


def text(parts):
    return " ".join(parts).replace("\xa0", " ").strip()


def parse_svg(path, what):
    import xml.etree.ElementTree as ET

    if not os.path.exists(path):
        raise Bad("missing", f"{what}: the image {os.path.basename(path)} does not exist")
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        raise Bad("torn", f"{what}: the image {os.path.basename(path)} is incomplete: {e}")
    ns = "{http://www.w3.org/2000/svg}"
    nodes, edges = [], []
    for g in root.iter(ns + "g"):
        c = g.get("class")
        if c not in ("node", "edge"):
            continue
        title = g.find(ns + "title").text
        texts = [x.text for x in g.iter(ns + "text")]
        if c == "node":
            nodes.append((title, tuple(texts)))
        else:
            edges.append((title, tuple(texts)))
    return nodes, edges


def acyclic(N, arcs):
    left = set(N)
    arcs = set(arcs)
    while left:
        src = [x for x in left if not any(b == x and a in left for a, b in arcs)]
        if not src:
            return False
        left -= set(src)
    return True


class Run:
    def __init__(self, sc):
        from tfc.utils.TFCUtils import ComponentConstraintGraph

        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.root = os.path.join(os.environ["VERIF_SCRATCH"], "out")
        self.dot = os.path.join(os.environ["VERIF_SCRATCH"], "dot")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "have"))
        with open(os.path.join(self.root, "have", "note.txt"), "w") as f:
            f.write("keep me")
        self.graphs = [ComponentConstraintGraph(N, E) for N, E in sc["gs"]]

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def dotplan(self, at, mode):
        for n, t in (("n", "0"), ("plan", f"{at} {mode}")):
            with open(os.path.join(self.dot, n), "w") as f:
                f.write(t + "\n")
        q = os.path.join(self.dot, "fired")
        if os.path.exists(q):
            os.remove(q)

    def path(self, o):
        return o["dir"] if o["rel"] else os.path.join(self.root, o["dir"])

    def call(self, o):
        if o["op"] == "report":
            self.graphs[o["g"]].SaveGraphs(self.path(o), allGraphs=o["all"], savePDFs=o["pdf"])
        else:
            from tfc.utils.Html import HTML

            h = HTML(os.path.join(self.path(o), o["n"]))
            with h.tag("html"):
                with h.tag("body"):
                    for t in o["text"]:
                        with h.tag("p"):
                            h.text(t)
            h.WriteFile()
            o["_html"] = h

    def verify(self, o, what):
        d = os.path.join(self.root, o["dir"])
        if o["op"] == "page":
            p = os.path.join(d, o["n"])
            if not os.path.exists(p):
                raise Bad("missing", f"{what}: {o['n']} does not exist")
            with open(p, encoding="utf-8") as f:
                t = f.read()
            h = o.pop("_html")
            if t != h.GenerateHtml() or h.ReadFile(p) != t:
                raise Bad("torn", f"{what}: {o['n']} holds {len(t)} characters, not the page written")
            pos = 0
            import html

            u = html.unescape(t)
            for x in o["text"]:
                pos = u.find(x, pos)
                if pos < 0:
                    raise Bad("content", f"{what}: {o['n']} lacks some of its text")
            self.c("pages.compared")
            return
        N, E = self.sc["gs"][o["g"]]
        want = []
        for t in itertools.product([0, 1], repeat=len(E)):
            arcs = [(e["node1"], e["node0"]) if x else (e["node0"], e["node1"]) for e, x in zip(E, t)]
            if o["all"] or acyclic(N, arcs):
                want.append(sorted((a, b, e["name"].strip()) for (a, b), e in zip(arcs, E)))
        main = os.path.join(d, "main.html")
        p, _ = parse_page(main, what)
        if len(p.img) != 1 or len(p.maps) != 1:
            raise Bad("content", f"{what}: the main page has {len(p.img)} images and {len(p.maps)} maps")
        if p.img[0].get("usemap", "").lstrip("#") not in (p.maps[0].get("id"), p.maps[0].get("name")):
            raise Bad("content", f"{what}: the main page's image does not use its map")
        mn, _ = parse_svg(os.path.normpath(os.path.join(d, p.img[0]["src"])), what)
        links = [a.get("href") for a in p.areas if a.get("href")]
        if len(links) != len(set(links)) or len(links) != len(want) or len(mn) != len(want):
            raise Bad("content", f"{what}: the main page shows {len(mn)} trees and links to {len(set(links))}, there are {len(want)}")
        got = []
        for k, ln in enumerate(links):
            q = os.path.normpath(os.path.join(d, ln))
            tp, _ = parse_page(q, what)
            if len(tp.img) != 1:
                raise Bad("content", f"{what}: {ln} has {len(tp.img)} images")
            s = os.path.normpath(os.path.join(os.path.dirname(q), tp.img[0]["src"]))
            nodes, edges = parse_svg(s, f"{what}: {ln}")
            show = {t: text(lab) for t, lab in nodes}
            if sorted(show.values()) != sorted(N):
                raise Bad("content", f"{what}: {ln} shows the variables {sorted(show.values())}")
            ed = []
            for t, lab in edges:
                a, b = re.split("->|--", t)
                # an end of a connection is a variable, perhaps with the place where it is attached
                a, b = (show.get(q, show.get(q.split(":")[0])) for q in (a, b))
                ed.append((a, b, text(lab)))
            got.append(sorted(ed, key=str))
            if o["pdf"]:
                f = os.path.splitext(s)[0] + ".pdf"
                if not os.path.exists(f):
                    raise Bad("missing", f"{what}: {os.path.basename(f)} does not exist")
                with open(f, "rb") as fh:
                    b = fh.read()
                if not b.startswith(b"%PDF") or b"%%EOF" not in b[-64:]:
                    raise Bad("torn", f"{what}: {os.path.basename(f)} is incomplete")
        if sorted(got) != sorted(want):
            raise Bad("content", f"{what}: the pages show {sorted(got)} instead of {sorted(want)}"[:900])
        self.c("reports.compared")
        self.c("trees.compared", len(got))

    def one(self, o, fault):
        from .. import fsim, sched

        what = f"{o['op']} into {o['dir'] or '.'}" + (f" of {self.sc['gs'][o['g']]} all={o['all']} pdf={o['pdf']}" if o["op"] == "report" else "") + (f" with fault {fault}" if fault else "")
        self.dotplan(fault[1] if fault and fault[0] == "dot" and fault[2] != "missing" else -1, fault[2] if fault and fault[0] == "dot" else "ok")
        path = os.environ["PATH"]
        if fault and fault[0] == "dot" and fault[2] == "missing":
            os.environ["PATH"] = os.path.join(self.root, "nothing")
        it = sched.Interrupt(fault[1]) if fault and fault[0] == "int" else None
        fs = fault[1] if fault and fault[0] == "fs" else []
        bud = fault[2] if fault and fault[0] == "fs" else None
        disk = fsim.Disk(self.root, fs, bud)
        err = emsg = None
        try:
            with disk:
                if it:
                    with it:
                        self.call(o)
                else:
                    self.call(o)
        except sched.Interrupted:
            err = "Interrupted"
        except (Exception, SystemExit) as e:  # noqa: BLE001
            err, emsg = type(e).__name__, str(e)
        finally:
            os.environ["PATH"] = path
        dotf = os.path.exists(os.path.join(self.dot, "fired")) or bool(fault and fault[0] == "dot" and fault[2] == "missing" and o["op"] == "report")
        fired = bool(disk.fired or (it and it.fired) or dotf)
        pre = disk.fired and bud is None and all(x[2] == "pre" for x in fs)
        with open(os.path.join(self.dot, "n")) as f:
            self.log.add(o["dir"], fault, err, disk.log, f.read())
        if fired:
            self.c("fault." + ("interrupt" if it else "dot_" + fault[2] if dotf else "folder_made_by_other" if pre else "disk_full" if bud is not None else "+".join(sorted({f"{x[0]}_{'interrupted' if x[3] == 'EINTR' else x[2]}" for x in fs}))))
        if err is None:
            self.c("calls.returned_despite_fault" if fired and not pre else "calls.ok")
            self.verify(o, what)
        elif not fired:
            raise Bad("failed", f"{what} failed although nothing was wrong: {err}: {emsg}")
        elif pre:
            raise Bad("failed", f"{what} failed because somebody else made the folder first: {err}: {emsg}")
        else:
            self.c("calls.raised")
        with open(os.path.join(self.root, "have", "note.txt")) as f:
            if f.read() != "keep me":
                raise Bad("damaged", f"{what} changed a file that is not part of the report")
        return err is None

    def go(self):
        cwd = os.getcwd()
        os.chdir(self.root)
        try:
            for o in self.sc["ops"]:
                o = dict(o)
                if not self.one(o, o["fault"]):
                    if not self.one(o, None):
                        raise Bad("failed", "repeating the report without a fault failed")
                    self.c("retries.ok")
            if self.sc["threads"]:
                self.threads()
        finally:
            os.chdir(cwd)

    def threads(self):
        from .. import sched

        self.dotplan(-1, "ok")
        s = sched.Sched(self.sc["plan"])
        res = s.run([lambda o=o: self.call(o) for o in self.sc["threads"]])
        self.c("thread_switches", s.switches)
        if s.switches:
            self.c("fault.preemption", s.switches)
        for o, r in zip(self.sc["threads"], res):
            self.log.add(r[0], s.trace)
            if r[0] != "ok":
                raise Bad("failed", f"report into {o['dir']} failed while another thread wrote another report: {type(r[1]).__name__}: {r[1]}")
            self.verify(o, f"report into {o['dir']} written beside another thread's report")


def run(sc):
    r = None
    v = None
    try:
        r = Run(sc)
        r.go()
    except Bad as e:
        v = e.v
    finally:
        shutil.rmtree(os.path.join(os.environ["VERIF_SCRATCH"], "out"), ignore_errors=True)
    nt = r.cnt.get("reports.compared", 0) >= 1
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
