"""Deterministic scheduler for caller threads.

Real threads, exactly one of which runs at a time. Preemption points are the line events of the repository's own
Python code (sys.monitoring, so no other code is slowed down or traced); which thread runs next and after how many
events is read from an explicit plan [[gap, choice], ...] that is part of the scenario.  The same points can raise an
injected exception (an interrupt arriving at that line).
"""
import os
import sys
import threading
import types

TOOL = 4
STAGE = os.environ.get("VERIF_STAGE", "/nonexistent")
_PKG = os.path.join(STAGE, "tfc") + os.sep
_HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
_SAFE = ("jax/_src/core.py", "jax/extend/", "threading.py")

tls = threading.local()
_codes = set()


class Interrupted(BaseException):
    """Injected asynchronous interrupt (stands for KeyboardInterrupt)."""


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _walk(k, seen)


def install():
    """Arm line events on every function of the staged package that is loaded now."""
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "tfcsim")
        m.register_callback(TOOL, m.events.LINE, _line)
    seen = set()
    for name, mod in list(sys.modules.items()):
        if name != "tfc" and not name.startswith("tfc."):
            continue
        f = getattr(mod, "__file__", "") or ""
        if not f.startswith(_PKG) or not f.endswith(".py"):
            continue
        for v in list(vars(mod).values()):
            _collect(v, seen)
    for c in seen:
        if c not in _codes and c.co_filename.startswith(_PKG):
            m.set_local_events(TOOL, c, m.events.LINE)
            _codes.add(c)
    return len(_codes)


def _collect(v, seen, depth=0):
    if isinstance(v, types.FunctionType):
        if v.__code__.co_filename.startswith(_PKG):
            _walk(v.__code__, seen)
        w = getattr(v, "__wrapped__", None)
        if w is not None:
            _collect(w, seen)
        # functions captured by decorators
        for cell in v.__closure__ or ():
            try:
                cc = cell.cell_contents
            except ValueError:
                continue
            if isinstance(cc, types.FunctionType) and depth < 3:
                _collect(cc, seen, depth + 1)
    elif isinstance(v, (staticmethod, classmethod)):
        _collect(v.__func__, seen)
    elif isinstance(v, property):
        for g in (v.fget, v.fset, v.fdel):
            if g:
                _collect(g, seen)
    elif isinstance(v, type) and depth < 2 and v.__module__.startswith("tfc"):
        for x in list(vars(v).values()):
            _collect(x, seen, depth + 1)


def _stack_safe(extra=()):
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if not (fn.startswith(_PKG) or fn.startswith(_HERE)):
            if not any(s in fn for s in _SAFE) and not any(s in fn for s in extra):
                return False
        f = f.f_back
    return True


def _line(code, line):
    h = getattr(tls, "hook", None)
    if h is not None:
        h(code, line)


class Interrupt:
    """Raises an injected interrupt at the n-th line event of the repository's code executed by this thread."""

    def __init__(self, n, exc=Interrupted):
        self.n = n
        self.exc = exc
        self.count = 0
        self.fired = None

    def __enter__(self):
        tls.hook = self._hook
        return self

    def __exit__(self, *a):
        tls.hook = None
        return False

    def _hook(self, code, line):
        k = self.count
        self.count += 1
        if k == self.n:
            tls.hook = None
            self.fired = f"{os.path.basename(code.co_filename)}:{code.co_name}"
            raise self.exc(f"injected at {self.fired}")


class Sched:
    def __init__(self, plan, extra_safe=(), stall_s=20.0):
        self.plan = [tuple(p) for p in plan]
        self.pos = 0
        self.gap = self.plan[0][0] if self.plan else -1
        self.events = 0
        self.switches = 0
        self.trace = []
        self.extra = tuple(extra_safe)
        self.free = False
        self.stall_s = stall_s
        self.progress = 0
        self.ticks = 0

    def _choice(self):
        c = self.plan[self.pos][1] if self.pos < len(self.plan) else 0
        self.pos += 1
        self.gap = self.plan[self.pos][0] if self.pos < len(self.plan) else -1
        return c

    def _hook(self, code, line):
        self.ticks += 1
        if self.free or self.gap < 0:
            return
        if not _stack_safe(self.extra):
            return
        self.events += 1
        if self.gap > 0:
            self.gap -= 1
            return
        c = self._choice()
        me = tls.tid
        others = [t for t in self.alive if t != me]
        if not others:
            return
        nxt = others[c % len(others)]
        self.switches += 1
        self.progress += 1
        self.trace.append((me, nxt, code.co_name))
        self.sems[nxt].release()
        self.sems[me].acquire()

    def _body(self, tid, fn):
        self.sems[tid].acquire()
        tls.tid = tid
        tls.hook = self._hook
        try:
            self.results[tid] = ("ok", fn())
        except BaseException as e:  # noqa: BLE001 - the verdict is the caller's
            self.results[tid] = ("exc", e)
        finally:
            tls.hook = None
            self.progress += 1
            self.alive.remove(tid)
            if self.alive:
                if not self.free:
                    nxt = self.alive[self._choice() % len(self.alive)]
                    self.trace.append((tid, nxt, "end"))
                    self.sems[nxt].release()
            else:
                self.done.set()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.results = [None] * n
        self.done = threading.Event()
        ths = [threading.Thread(target=self._body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ths:
            t.start()
        first = self._choice() % n if self.plan else 0
        self.sems[first].release()
        seen = None
        while not self.done.wait(self.stall_s):
            mark = (self.progress, self.ticks)
            if mark != seen:
                seen = mark
                continue
            # the running thread waits for something a parked thread holds: let everyone run freely
            if not self.free:
                self.free = True
                for k in list(self.alive):
                    self.sems[k].release()
            else:
                raise RuntimeError("simulated threads did not finish")
        for t in ths:
            t.join(5)
        return self.results
