"""S13: a checkpoint request dumps exactly the calling process into exactly the folder named."""
import contextlib
import io
import json
import os
import select
import shlex
import shutil
import stat
import sys
import time
import warnings

from ..util import Bad, Log, drop_each, sig

BUILD = "fs"
BATCH = 16
RUN_TIMEOUT = 120
LEVEL = "exploration"
TIERS = {
    "quick": {"runs": 480, "seconds": 60, "recheck": 2},
    "thorough": {"runs": 12000, "seconds": 1200, "recheck": 8, "minimise_s": 200},
}
RULE = (
    "A case is 1-6 checkpoint requests of a process (whose number changes between requests, as after a fork) into folders "
    "with ordinary and unusual names, absent, nested, present, occupied by a file or made by somebody else during the call, "
    "given absolutely or relative to a working directory that changes before the checkpoint program starts; with and without "
    "root rights; disk faults when the folder is made, a program that is slow, fails or is missing, standard output that "
    "fails, interrupts at seeded lines; then requests of 2-3 simulated threads at once. Non-trivial: at least one dump "
    "was started and compared; distinct by the scenario."
)
MEASURE = "hash of every outcome, every start of the checkpoint program with its arguments, file system calls and schedule"
REAL = ["tfc.utils.TFCUtils.criuCheckpoint", "the shell", "file system calls", "CPython"]
STUB = ["criu and sudo (record what they are asked to do)", "process number (os.getpid)", "standard output", "disk faults by plan"]
ASSUMPTIONS = ["the checkpoint program itself is not part of the library and is replaced by a recorder"]

NAMES = [
    "cp", "criu_checkpoint", "a b", "it's", 'say "hi"', "$HOME", "$(touch pwned)", "`touch pwned`", "a;touch pwned", "a&b", "x|y", "st*r", "-D", "--tree",
    "tab\there", "ünï", "(p)", "a\\b", "#no", "~", "p/q", "p/q r/s", "have", "have/in", "new\nline", "%d{}", "trail ", " lead", "!x", "a<b>c", "lnk/../cp", "lnk/in", "./cp",
]

PROG = r"""#!/opt/venv/bin/python -ISs
import json, os, sys, time
d = %r
try:
    with open(os.path.join(d, "plan")) as f: mode = f.read().split()
except OSError:
    mode = ["ok"]
if os.path.basename(sys.argv[0]) == "sudo":
    a = sys.argv[1:]
    while a and a[0].startswith("-"): a = a[1:]
    os.environ["SUDO"] = "1"
    try: os.execvp(a[0], a)
    except OSError: sys.exit(127)
if mode[0] == "slow":
    for _ in range(300):
        if os.path.exists(os.path.join(d, "go")): break
        time.sleep(0.01)
r = {"argv": sys.argv[1:], "cwd": os.getcwd(), "root": os.environ.get("SUDO") == "1"}
t = os.path.join(d, "calls", str(os.getpid()))
with open(t + ".tmp", "w") as f: json.dump(r, f)
os.rename(t + ".tmp", t + ".json")
sys.exit(1 if mode[0] == "fail" else 0)
"""


def gen(rng, tier):
    def req():
        f = None
        r = rng.random()
        if r < 0.12:
            f = ["mkdir", rng.choice([0, 0, 1]), "pre", None]
        elif r < 0.24:
            f = ["mkdir", rng.choice([0, 0, 1]), "err", rng.choice(["EACCES", "ENOSPC", "EROFS", "ENOTDIR"])]
        elif r < 0.32:
            f = ["int", rng.randint(0, 24)]
        elif r < 0.40:
            f = ["out", rng.choice(["EPIPE", "ENOSPC"])]
        elif r < 0.46:
            f = ["file"]
        return {
            "name": rng.choice(NAMES), "rel": rng.random() < 0.5, "user": rng.random() < 0.4, "kw": rng.random() < 0.5, "default": rng.random() < 0.06,
            "pid": rng.choice([0, 0, rng.randint(2, 99999)]), "cd": rng.choice([None, None, "w1", "w2", "w 3"]), "after": rng.choice([None, None, "w1", "w2"]),
            "mode": rng.choice(["ok", "ok", "slow", "slow", "fail", "missing"]), "fault": f, "again": rng.random() < 0.3,
        }

    sc = {"ops": [req() for _ in range(rng.choice([1, 2, 3, 4, 6]))], "threads": [], "plan": []}
    if rng.random() < 0.5:
        sc["threads"] = [dict(req(), fault=None, mode="ok", cd=None, after=None, name=f"{rng.choice(NAMES)}{k}" if rng.random() < 0.6 else "same/x", again=False, default=False) for k in range(rng.choice([2, 2, 3]))]
        sc["plan"] = [[rng.choice([0, 1, 2, 3, 5, 8]), rng.randrange(6)] for _ in range(rng.randint(2, 16))]
    return sc


def shrink(sc):
    for c in drop_each(sc["ops"], 0 if sc["threads"] else 1):
        yield dict(sc, ops=c)
    if sc["threads"]:
        if sc["ops"]:
            yield dict(sc, threads=[], plan=[])
        for c in drop_each(sc["threads"], 2):
            yield dict(sc, threads=c)
        for p in drop_each(sc["plan"]):
            yield dict(sc, plan=p)
    base = {"fault": None, "cd": None, "after": None, "pid": 0, "mode": "ok", "user": False, "rel": False, "name": "cp", "again": False, "kw": False}
    for k, o in enumerate(sc["ops"]):
        for key, val in base.items():
            if o[key] != val:
                yield dict(sc, ops=sc["ops"][:k] + [dict(o, **{key: val})] + sc["ops"][k + 1 :])


def setup():
    from .. import fsim, sched

    d = os.path.join(os.environ["VERIF_SCRATCH"], "criu")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "bin"))
    os.makedirs(os.path.join(d, "calls"))
    os.makedirs(os.path.join(d, "bin_none"))
    for n in ("criu", "sudo"):
        p = os.path.join(d, "bin", n)
        with open(p, "w") as f:
            f.write(PROG % d)
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
    # without the checkpoint program: sudo must still never be the real one
    shutil.copy2(os.path.join(d, "bin", "sudo"), os.path.join(d, "bin_none", "sudo"))
    import tfc  # noqa: F401
    from tfc.utils import TFCUtils  # noqa: F401

    sched.install()
    fsim.lib()
    warnings.simplefilter("ignore")


class Out(io.StringIO):
    def __init__(self, err):
        super().__init__()
        self.err = err
        self.failed = False

    def write(self, s):
        if self.err:
            import errno

            self.failed = True
            raise OSError(getattr(errno, self.err), os.strerror(getattr(errno, self.err)))
        return super().write(s)


def option(argv, names):
    """Values of an option in every spelling the checkpoint program accepts."""
    r = []
    k = 0
    while k < len(argv):
        a = argv[k]
        for n in names:
            if a == n and k + 1 < len(argv):
                r.append(argv[k + 1])
                k += 1
                break
            if n.startswith("--") and a.startswith(n + "="):
                r.append(a[len(n) + 1 :])
                break
            if not n.startswith("--") and a.startswith(n) and len(a) > 2:
                r.append(a[2:])
                break
        k += 1
    return r


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.log = Log()
        self.cnt = {}
        self.d = os.path.join(os.environ["VERIF_SCRATCH"], "criu")
        self.root = os.path.join(os.environ["VERIF_SCRATCH"], "out")
        shutil.rmtree(self.root, ignore_errors=True)
        for n in ("have", "w1", "w2", "w 3"):
            os.makedirs(os.path.join(self.root, n))
        with open(os.path.join(self.root, "have", "note.txt"), "w") as f:
            f.write("keep me")
        # a link to a folder elsewhere: what lies above it is not what its name suggests
        os.makedirs(os.path.join(self.root, "far", "sub"))
        for n in (".", "w1", "w2", "w 3"):
            os.symlink(os.path.join(self.root, "far", "sub"), os.path.join(self.root, n, "lnk"))
        self.cwd = self.root

    def c(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def clean(self, mode):
        for n in os.listdir(os.path.join(self.d, "calls")):
            os.remove(os.path.join(self.d, "calls", n))
        for n in ("go", "plan"):
            p = os.path.join(self.d, n)
            if os.path.exists(p):
                os.remove(p)
        with open(os.path.join(self.d, "plan"), "w") as f:
            f.write(mode)

    def calls(self):
        r = []
        for n in sorted(os.listdir(os.path.join(self.d, "calls"))):
            if n.endswith(".json"):
                with open(os.path.join(self.d, "calls", n)) as f:
                    r.append(json.load(f))
        return r

    def plain(self, c):
        w = [("self" if a == str(os.getpid()) else a).replace(os.environ["VERIF_SCRATCH"], "@") for a in c["argv"] + [c["cwd"]]]
        return w, c["root"]

    def target(self, o):
        n = "criu_checkpoint" if o["default"] else o["name"]
        rel = o["rel"] or o["default"] or n.startswith("lnk")
        return n if rel else os.path.join(self.root, "abs", n), os.path.join(self.cwd if rel else os.path.join(self.root, "abs"), n)

    def call(self, o):
        from tfc.utils.TFCUtils import criuCheckpoint

        arg, _ = self.target(o)
        if o["default"]:
            criuCheckpoint(user_mode=o["user"]) if o["user"] else criuCheckpoint()
        elif o["kw"]:
            criuCheckpoint(user_mode=o["user"], dir=arg)
        else:
            criuCheckpoint(arg, o["user"])

    @contextlib.contextmanager
    def world(self, o, mode):
        """Stand-in programs, process number and a pipe that ends when all started programs have ended."""
        self.clean(mode if mode in ("slow", "fail") else "ok")
        path = os.environ["PATH"]
        os.environ["PATH"] = os.path.join(self.d, "bin_none" if mode == "missing" else "bin") + ":/usr/bin:/bin"
        getpid = os.getpid
        self.pid = o["pid"] or getpid()
        if o["pid"]:
            os.getpid = lambda p=o["pid"]: p
        r, w = os.pipe()
        out1, err2 = os.dup(1), os.dup(2)
        sys.stdout.flush()
        os.dup2(w, 1, inheritable=True)
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 2, inheritable=True)
        os.close(nul)
        os.set_inheritable(w, True)
        self.pipe = r
        try:
            yield
        finally:
            os.getpid = getpid
            os.close(w)
            os.dup2(out1, 1)
            os.dup2(err2, 2)
            os.close(out1)
            os.close(err2)
            os.environ["PATH"] = path

    def settle(self, expect):
        """All programs started have ended (their end of the pipe is closed)."""
        with open(os.path.join(self.d, "go"), "w"):
            pass
        end = time.monotonic() + 40
        while time.monotonic() < end:
            if select.select([self.pipe], [], [], 0.5)[0] and not os.read(self.pipe, 4096):
                break
        os.close(self.pipe)
        # a program started detached from the standard streams is waited for by its record
        end = time.monotonic() + 6
        while len(self.calls()) < expect and time.monotonic() < end:
            time.sleep(0.02)
        return self.calls()

    def verify(self, o, calls, text, what, folder, pid):
        if o["mode"] != "missing":
            if len(calls) != 1:
                raise Bad("count", f"{what}: the checkpoint program was started {len(calls)} times")
            self.dump(o, calls[0], what, folder, pid)
        if not os.path.isdir(folder):
            raise Bad("folder", f"{what}: the folder does not exist")
        self.message(text, what, folder)

    def dump(self, o, call, what, folder, pid):
        a = call["argv"]
        if not a or a[0] != "dump":
            raise Bad("command", f"{what}: the checkpoint program was asked for {a}")
        t = option(a[1:], ["-t", "--tree"])
        if t != [str(pid)]:
            raise Bad("process", f"{what}: asked to dump {t} instead of process {pid}")
        f = option(a[1:], ["-D", "--images-dir"])
        if len(f) != 1 or os.path.realpath(os.path.join(call["cwd"], f[0])) != os.path.realpath(folder):
            raise Bad("folder", f"{what}: asked to dump into {f} (from {call['cwd']}) instead of {folder}")
        if not ({"-R", "--leave-running"} & set(a)) or not ({"-j", "--shell-job"} & set(a)):
            raise Bad("command", f"{what}: the program would not be left running on its terminal: {a}")
        if o["user"] == call["root"]:
            raise Bad("rights", f"{what}: asked {'with' if call['root'] else 'without'} root rights")
        if ("--unprivileged" in a) != o["user"]:
            raise Bad("rights", f"{what}: the checkpoint program was asked for {a}")
        left = [x for x in a[1:] if x not in ("-t", "--tree", "-D", "--images-dir", "-R", "--leave-running", "-j", "--shell-job", "--unprivileged", str(pid), f[0])]
        if any(not x.startswith("-") for x in left):
            raise Bad("command", f"{what}: the checkpoint program got stray arguments {left}")
        self.c("dumps.compared")

    def message(self, text, what, folder):
        lines = text[text.rfind("criu restore") :] if "criu restore" in text else None
        if lines is None:
            raise Bad("message", f"{what}: printed {text!r}, not how to restore")
        try:
            a = shlex.split(lines)
        except ValueError as e:
            raise Bad("message", f"{what}: the restore command printed is no command ({e}): {lines!r}")
        f = option(a, ["-D", "--images-dir"])
        if len(f) != 1 or os.path.realpath(os.path.join(self.cwd, f[0])) != os.path.realpath(folder):
            raise Bad("message", f"{what}: the restore command printed reads {f} instead of {folder}")

    def one(self, o, fault):
        from .. import fsim, sched

        if o["cd"]:
            self.cwd = os.path.join(self.root, o["cd"])
            os.chdir(self.cwd)
        arg, folder = self.target(o)
        if fault and fault[0] == "file" and not os.path.exists(folder):
            os.makedirs(os.path.dirname(folder), exist_ok=True)
            with open(folder, "w") as f:
                f.write("a file")
        blocked, there = os.path.isfile(folder), os.path.isdir(folder)
        what = f"checkpoint of process {o['pid'] or 'self'} into {arg!r}" + (" in user mode" if o["user"] else "") + f" (program: {o['mode']})" + (f" with fault {fault}" if fault else "")
        it = sched.Interrupt(fault[1]) if fault and fault[0] == "int" else None
        out = Out(fault[1] if fault and fault[0] == "out" else None)
        disk = fsim.Disk(self.root, [fault + [0]] if fault and fault[0] == "mkdir" else [])
        err = emsg = None
        old = sys.stdout
        with self.world(o, o["mode"]):
            sys.stdout = out
            try:
                with disk:
                    with it or contextlib.nullcontext():
                        self.call(o)
            except sched.Interrupted:
                err = "Interrupted"
            except (Exception, SystemExit) as e:  # noqa: BLE001
                err, emsg = type(e).__name__, str(e)
            finally:
                sys.stdout = old
            pid = self.pid
        if o["after"]:
            os.chdir(os.path.join(self.root, o["after"]))
        calls = self.settle(1 if err is None and o["mode"] != "missing" else 0)
        pre = bool(disk.fired and fault[2] == "pre")
        # refusing to make a folder that is already there is no reason to fail
        refused = bool(disk.fired and fault[2] == "err" and not there)
        fired = bool(refused or (it and it.fired) or out.failed or blocked)
        self.log.add(o, err, disk.log, [self.plain(c) for c in calls], it and it.fired)
        if pre or fired or o["mode"] != "ok":
            for k, y in (("folder_made_by_other", pre), ("mkdir_" + str(fault and fault[-1]), refused), ("interrupt", it and it.fired), ("stdout_" + str(out.err), out.failed), ("file_in_place", blocked), ("program_" + o["mode"], o["mode"] != "ok")):
                if y:
                    self.c("fault." + k)
        if err is None:
            if refused or blocked:
                raise Bad("silent", f"{what} returned although the folder could not be made")
            if out.failed:
                raise Bad("silent", f"{what} returned although its message could not be printed")
            self.verify(o, calls, out.getvalue(), what, folder, pid)
            self.c("requests.ok")
        else:
            if not fired and not (disk.fired and there and not pre):
                raise Bad("failed", f"{what} failed{' because somebody else made the folder first' if pre else ' although nothing was wrong'}: {err}: {emsg}")
            if (refused or blocked) and calls:
                raise Bad("silent", f"{what} failed, but the checkpoint program was started")
            if len(calls) > 1:
                raise Bad("count", f"{what}: the checkpoint program was started {len(calls)} times")
            for c in calls:
                self.dump(o, c, what, folder, pid)
            self.c("requests.raised")
        if blocked and fault and fault[0] == "file":
            os.remove(folder)
        self.check(what)
        if o["after"]:
            self.cwd = os.path.join(self.root, o["after"])
        return err is None

    def check(self, what):
        with open(os.path.join(self.root, "have", "note.txt")) as f:
            if f.read() != "keep me":
                raise Bad("damaged", f"{what} changed a file in the folder")
        for b, _, fs in os.walk(self.root):
            if "pwned" in fs:
                raise Bad("shell", f"{what}: a part of the folder's name was executed")

    def go(self):
        os.chdir(self.root)
        try:
            for o in self.sc["ops"]:
                if not self.one(o, o["fault"]):
                    if not self.one(dict(o, mode="ok" if o["mode"] == "missing" else o["mode"]), None):
                        raise Bad("failed", "repeating the request without a fault failed")
                    self.c("retries.ok")
                elif o["again"]:
                    self.one(dict(o, after=None), None)
            if self.sc["threads"]:
                self.threads()
        finally:
            os.chdir("/")

    def threads(self):
        from .. import sched

        ops = self.sc["threads"]
        s = sched.Sched(self.sc["plan"], extra_safe=("subprocess.py",))
        out = Out(None)
        old = sys.stdout
        with self.world({"pid": 0}, "ok"):
            sys.stdout = out
            try:
                res = s.run([lambda o=o: self.call(o) for o in ops])
            finally:
                sys.stdout = old
            pid = self.pid
        calls = self.settle(len(ops))
        self.c("thread_switches", s.switches)
        if s.switches:
            self.c("fault.preemption", s.switches)
        for o, r in zip(ops, res):
            self.log.add(r[0], s.trace)
            if r[0] != "ok":
                raise Bad("failed", f"checkpoint into {self.target(o)[0]!r} failed beside another thread's: {type(r[1]).__name__}: {r[1]}")
        if len(calls) != len(ops):
            raise Bad("count", f"{len(ops)} threads asked for a checkpoint, the program was started {len(calls)} times")
        left = list(calls)
        for o in ops:
            what = f"checkpoint into {self.target(o)[0]!r} beside another thread's"
            err = None
            for c in left:
                try:
                    self.dump(o, c, what, self.target(o)[1], pid)
                    left.remove(c)
                    break
                except Bad as e:
                    err = e
            else:
                raise err
            if not os.path.isdir(self.target(o)[1]):
                raise Bad("folder", f"{what}: the folder does not exist")
        self.check("requests of several threads")


def run(sc):
    r = None
    v = None
    try:
        r = Run(sc)
        r.go()
    except Bad as e:
        v = e.v
    finally:
        os.chdir("/")
        shutil.rmtree(os.path.join(os.environ["VERIF_SCRATCH"], "out"), ignore_errors=True)
    nt = r.cnt.get("dumps.compared", 0) >= 1
    return v, {"counters": r.cnt, "digest": r.log.digest(), "sig": sig(sc) if nt else None, "sample": sc if nt else None}
