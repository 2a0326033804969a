"""Orchestrator: builds the staged tree, runs seeded simulations in worker processes, confirms, minimises, reports."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import stage as st
from .worker import rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Worker:
    """One worker process. Results are collected by poll()."""

    def __init__(self, ctx, args, run_timeout, hashseed="0"):
        self.r, w = os.pipe()
        self.dir = tempfile.mkdtemp(prefix="w", dir=ctx.work)
        env = st.worker_env(ctx.work, ctx.stage, hashseed)
        env["VERIF_SCRATCH"] = self.dir
        self.errf = open(os.path.join(self.dir, "stderr"), "w+")
        self.p = subprocess.Popen(
            ["bash", "-c", f'exec "$0" -m sim.worker "$@" 3>&{w}', st.PY, ctx.prop, ctx.tier] + args,
            pass_fds=(w,),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=self.errf,
            cwd=self.dir,
            env=env,
            start_new_session=True,
        )
        os.close(w)
        os.set_blocking(self.r, False)
        self.buf = b""
        self.results = []
        self.current = None
        self.started = None
        self.born = time.monotonic()
        self.timeout = run_timeout
        self.samples = []
        self.ended = False
        self.finished = False  # orderly end
        self.crash = None
        self.setup_error = None

    def poll(self):
        if self.ended:
            return
        while True:
            try:
                d = os.read(self.r, 1 << 16)
            except BlockingIOError:
                break
            if not d:
                self._eof()
                return
            self.buf += d
            *lines, self.buf = self.buf.split(b"\n")
            for ln in lines:
                o = json.loads(ln)
                if "start" in o:
                    self.current = o["start"]
                    self.started = time.monotonic()
                elif "done" in o:
                    self.results.append(o)
                    self.current = None
                    self.started = time.monotonic()
                elif "setup_error" in o:
                    self.setup_error = o["setup_error"]
                elif "end" in o:
                    self.finished = True
        now = time.monotonic()
        if self.current is not None and now - self.started > 10 and self._hangs(now):
            self.kill("hang")
        elif self.started is None and now - self.born > 300:
            self.kill("startup")

    def _cpu(self):
        """Processor seconds used so far: a run on a busy machine takes long, but not much of these."""
        try:
            with open(f"/proc/{self.p.pid}/stat") as f:
                v = f.read().rsplit(")", 1)[1].split()
            return sum(int(k) for k in v[11:15]) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def _hangs(self, now):
        s = self.samples
        if not s or s[0][2] != self.started:
            s[:] = [(now, self._cpu(), self.started)]
            return False
        if now - s[-1][0] < 2:
            return False
        s.append((now, self._cpu(), self.started))
        if s[-1][1] - s[0][1] > self.timeout or now - self.started > 5 * self.timeout:
            return True  # it runs and runs
        if now - self.started > self.timeout:
            # nothing happens any more
            back = [k for k in s if now - k[0] > 25]
            return bool(back) and s[-1][1] - back[-1][1] < 0.4
        return False

    def _eof(self):
        rc = self.p.wait()
        self.ended = True
        os.close(self.r)
        if not self.finished and self.setup_error is None and self.crash is None:
            self.crash = f"signal {-rc}" if rc < 0 else f"exit {rc}"
            self.errf.flush()
            self.errf.seek(0)
            t = self.errf.read()
            self.tail = t[-3000:]
        self.errf.close()
        self._clean()

    def kill(self, why):
        self.crash = why
        self.tail = ""
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.ended = True
        os.close(self.r)
        self.errf.close()
        self._clean()

    def _clean(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Ctx:
    pass


def crash_violation(w):
    if w.crash == "hang":
        return {"class": "hang", "msg": f"the run did not finish within {w.timeout} s of computing or stands still (normally well under a second)"}
    native = ""
    for ln in (w.tail or "").splitlines():
        if ln.startswith("SIM-ERROR"):
            native = " after: " + ln[10:]
            break
    where = ""
    for ln in (w.tail or "").splitlines():
        if "File" in ln and "/tfc/" in ln:
            where = " at " + ln.strip()
            break
    return {"class": "crash", "msg": f"the process died ({w.crash}){native}{where}"}


def run_scenarios(ctx, jobs, parallel=8, timeout=None):
    """jobs: list of scenario lists. Each list runs in a fresh process. Returns per job the violation of its last
    scenario, or of an earlier one, or None."""
    timeout = timeout or ctx.mod.RUN_TIMEOUT
    res = [None] * len(jobs)
    pend = list(range(len(jobs)))
    act = {}
    while pend or act:
        while pend and len(act) < parallel:
            k = pend.pop(0)
            f = os.path.join(ctx.work, f"job{k}.json")
            with open(f, "w") as fh:
                json.dump(jobs[k], fh)
            act[k] = Worker(ctx, ["file", f], timeout)
        time.sleep(0.02)
        for k, w in list(act.items()):
            w.poll()
            if w.ended:
                del act[k]
                v = None
                for o in w.results:
                    if o.get("v"):
                        v = dict(o["v"], at=o["done"])
                        break
                    if o.get("err"):
                        v = {"class": "harness", "msg": o["err"], "at": o["done"]}
                        break
                if v is None and w.crash and w.crash != "startup":
                    v = dict(crash_violation(w), at=w.current)
                if w.setup_error:
                    v = {"class": "harness", "msg": w.setup_error, "at": 0}
                res[k] = v
    return res


def same(a, b):
    return a is not None and b is not None and a["class"] == b["class"]


def minimise(ctx, scs, v, budget_s):
    """Greedy delta debugging over the last scenario, every candidate in a fresh process."""
    if not hasattr(ctx.mod, "shrink"):
        return scs, v, 0
    t0 = time.monotonic()
    tried = 0
    seen = set()
    cur = scs
    slow = v["class"] == "hang"  # every candidate that shows it costs the whole time limit
    while time.monotonic() - t0 < budget_s:
        cands = []
        for c in ctx.mod.shrink(cur[-1]):
            key = json.dumps(c, sort_keys=True)
            if key in seen or key == json.dumps(cur[-1], sort_keys=True):
                continue
            seen.add(key)
            cands.append(cur[:-1] + [c])
            if len(cands) >= (ctx.workers if slow else 16):
                break
        if not cands:
            break
        tried += len(cands)
        rs = run_scenarios(ctx, cands, ctx.workers, min(30, ctx.mod.RUN_TIMEOUT) if slow else None)
        for c, r in zip(cands, rs):
            if same(r, v) and r.get("at") == len(c) - 1:
                cur, v = c, r
                break
    return cur, v, tried


def load_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in ln.split() if "=" in x)
                if kv.get("property") == prop:
                    out.append((kv.get("class"), ln.strip()))
    return out


def setup_check():
    """Nothing is built ahead of a check (each builds from /repo's tree); only make sure the tools are there."""
    for t in ("clang++", "objcopy", "nm", "dot", "bash"):
        if not shutil.which(t):
            print("missing tool:", t)
            return 1
    print("setup ok:", sys.version.split()[0])
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--digests", help="write index->digest to this file (determinism experiments)")
    ap.add_argument("--hashseed", default="0")
    ap.add_argument("--keep-going", action="store_true", help="report all violation classes, no minimisation")
    if (argv or sys.argv[1:]) == ["--setup"]:
        return setup_check()
    a = ap.parse_args(argv)
    ctx = Ctx()
    ctx.prop, ctx.tier, ctx.workers = a.property, a.tier, a.workers
    ctx.mod = importlib.import_module("sim.props." + a.property)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx.work = tempfile.mkdtemp(prefix="tfcsim_")
    t0 = time.monotonic()
    try:
        ctx.stage = st.stage(ctx.work, ctx.mod.BUILD)
        build_s = time.monotonic() - t0
        if a.replay:
            return replay(ctx, a.replay)
        return search(ctx, a, seed, t0, build_s)
    except st.BuildError as e:
        log("the extension does not build:\n", str(e)[-4000:])
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


def replay(ctx, path):
    with open(path) as f:
        r = json.load(f)
    v = run_scenarios(ctx, [r["scenarios"]])[0]
    if v is None:
        print(f"replay of {path}: no violation")
        return 0
    if v["class"] == "harness":
        log(v["msg"])
        return 2
    print(f"{v['class']}: {v['msg']}")
    print(f"VIOLATION property={ctx.prop} replay={path}")
    return 1


def search(ctx, a, seed, t0, build_s):
    mod = ctx.mod
    tierc = mod.TIERS[ctx.tier]
    total = a.runs or tierc["runs"]
    cap = a.seconds or tierc["seconds"]
    batch = mod.BATCH
    starts = list(range(0, total, batch))
    # determinism sample: some batches are executed again by another process with another hash seed
    resample = set(starts[:: max(1, len(starts) // tierc.get("recheck", 3))][: tierc.get("recheck", 3)])
    pend = collections.deque([(s, False) for s in starts])
    pend.extend((s, True) for s in sorted(resample))
    act = {}
    counters = collections.Counter()
    sigs = set()
    digests = {}
    redig = {}
    times = 0.0
    sim_time = 0.0
    samples = []
    viol = []
    errs = []
    unconfirmed = []
    nruns = 0
    stopped = False
    ts = time.monotonic()
    while pend or act:
        if time.monotonic() - ts > cap and pend:
            pend = collections.deque(x for x in pend if x[1] and x[0] in digests_started(digests, x[0], batch))
            stopped = True
            cap = float("inf")
        if viol and not a.keep_going:
            pend.clear()
            # let earlier batches finish so that the lowest failing index is reported
            for s, w in list(act.items()):
                if s[0] > min(i for i, _, _ in viol):
                    w.kill("stopped")
                    del act[s]
        while pend and len(act) < ctx.workers:
            s, re = pend.popleft()
            act[(s, re)] = Worker(
                ctx,
                ["gen", str(seed), str(s), str(min(batch, total - s))],
                mod.RUN_TIMEOUT,
                hashseed=(str(seed * 7919 % 4294967291 + 13) if re else a.hashseed),
            )
        if act:
            select.select([w.r for w in act.values()], [], [], 0.2)
        for key, w in list(act.items()):
            n0 = len(w.results)
            w.poll()
            s, re = key
            for o in w.results[n0:]:
                i = o["done"]
                if o.get("err"):
                    errs.append((i, o["err"]))
                    continue
                x = o["st"]
                if re:
                    redig[i] = x.get("digest")
                    continue
                nruns += 1
                times += o["t"]
                digests[i] = x.get("digest")
                counters.update(x.get("counters", {}))
                sim_time += x.get("sim_time", 0.0)
                if x.get("sig") is not None:
                    sigs.add(x["sig"])
                if len(samples) < 3 and x.get("sample") is not None and x.get("sig") is not None:
                    samples.append({"index": i, "case": x["sample"]})
                if o["v"]:
                    viol.append((i, o["v"], s))
            if w.ended:
                del act[key]
                if w.setup_error:
                    errs.append((s, w.setup_error))
                elif w.crash and w.crash == "stopped":
                    pass
                elif w.crash == "startup":
                    errs.append((s, "worker did not start"))
                elif w.crash:
                    i = w.current if w.current is not None else s
                    if not re:
                        viol.append((i, crash_violation(w), s))
                        nxt = i + 1
                        end = min(s + batch, total)
                        if a.keep_going and nxt < end:
                            pass
    explore_s = time.monotonic() - ts
    mism = sorted(i for i in redig if i in digests and digests[i] != redig[i])
    rc = 0
    findings = load_findings(ctx.prop)
    reported = 0
    final = None
    if a.keep_going:
        for i, v, s in sorted(viol, key=lambda x: x[0]):
            log(f"run {i}: {v['class']}: {v['msg']}")
    for i, v, s in sorted(viol, key=lambda x: x[0])[:3]:
        known = [ln for c, ln in findings if c == v["class"]]
        if known:
            print("KNOWN-FINDING: " + known[0][len("finding: "):])
            continue
        final = confirm(ctx, seed, i, v, s)
        if final is None:
            unconfirmed.append({"index": i, "violation": v})
            log(f"run {i}: not confirmed on re-execution: {v['class']}: {v['msg']}")
            continue
        reported = 1
        break
    tried = 0
    path = None
    if reported:
        scs, v = final
        if not a.keep_going:
            scs, v, tried = minimise(ctx, scs, v, tierc.get("minimise_s", 90))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{ctx.prop}-s{seed}-r{i}.json")
        v = {k: x for k, x in v.items() if k != "at"}
        with open(path, "w") as f:
            json.dump(
                {
                    "property": ctx.prop,
                    "seed": seed,
                    "run": i,
                    "violation": v,
                    "scenarios": scs,
                    "minimisation_candidates": tried,
                    "how_to_replay": f"python check.py {ctx.prop} --replay {path}",
                },
                f,
                indent=1,
            )
        rc = 1
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump(digests, f, indent=0, sort_keys=True)
    wall = time.monotonic() - t0
    cov = {
        "evaluations": nruns,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "simulated_runs": nruns,
        "runs_requested": total,
        "stopped_by_time_cap": stopped,
        "runs_per_hour": round(nruns / explore_s * 3600) if explore_s > 0 else 0,
        "seeds_per_hour": round(nruns / explore_s * 3600) if explore_s > 0 else 0,
        "simulated_time_s": round(sim_time, 3),
        "faults_injected": {k[6:]: n for k, n in sorted(counters.items()) if k.startswith("fault.")},
        "probes": {k: n for k, n in sorted(counters.items()) if not k.startswith("fault.")},
        "distinct_executions_measure": mod.MEASURE,
        "distinct_executions": len(set(digests.values())),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "determinism_rechecked_runs": len(redig),
        "determinism_mismatches": len(mism),
        "unconfirmed": unconfirmed,
        "build_s": round(build_s, 2),
    }
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{ctx.prop} [{ctx.tier}] seed={seed}: {nruns} runs, {len(sigs)} distinct non-trivial, "
        f"{sum(cov['faults_injected'].values())} faults, {wall:.1f} s"
        + (f", determinism mismatches: {mism[:5]}" if mism else "")
    )
    if rc:
        print(f"{v['class']}: {v['msg']}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    if errs:
        log("harness errors:", len(errs))
        for i, e in errs[:3]:
            log(f"run {i}:\n{e}")
        return 2
    return 0


def digests_started(digests, s, batch):
    return {s} if s in digests else set()


def confirm(ctx, seed, i, v, s):
    """Re-execute in a fresh process: alone, then with the runs that preceded it in its worker."""
    gen = lambda k: ctx.mod.gen(rng_for(ctx.prop, seed, k), ctx.tier)
    sc = json.loads(json.dumps(gen(i)))
    for scs in ([sc],) if i == s else ([sc], [json.loads(json.dumps(gen(k))) for k in range(s, i + 1)]):
        r = run_scenarios(ctx, [scs], timeout=ctx.mod.RUN_TIMEOUT * 2)[0]
        if r is not None and r["class"] not in ("harness",):
            at = r.get("at")
            if at is not None and at < len(scs) - 1:
                scs = scs[: at + 1]
            # shorten the prefix
            while len(scs) > 1:
                half = scs[len(scs) // 2 :] if len(scs) > 2 else scs[1:]
                q = run_scenarios(ctx, [half])[0]
                if same(q, r) and q.get("at") == len(half) - 1:
                    scs = half
                else:
                    break
            return scs, r
    return None


if __name__ == "__main__":
    sys.exit(main())
