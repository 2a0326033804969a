"""Stages a private copy of the repository's package and builds its C++ extension from the current working tree."""
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = os.path.join(HERE, "native")


class BuildError(Exception):
    pass


def _run(cmds):
    """Run all commands in parallel; raise BuildError with the output of the first that fails."""
    ps = [
        (c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for c in cmds
    ]
    bad = None
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode and bad is None:
            bad = " ".join(c) + "\n" + out
    if bad:
        raise BuildError(bad)


def stage(workdir, build):
    """Copy /repo/src/tfc to workdir/stage/tfc; build is 'none', 'plain', 'sim' or 'fs'. Returns the stage directory."""
    st = os.path.join(workdir, "stage")
    pkg = os.path.join(st, "tfc")
    shutil.copytree(
        os.path.join(REPO, "src", "tfc"),
        pkg,
        ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc", "build"),
    )
    if build == "fs":
        _run([["gcc", "-O1", "-fPIC", "-shared", "-o", os.path.join(st, "fsrt.so"), os.path.join(NATIVE, "fsrt.c"), "-ldl"]])
    elif build != "none":
        native(os.path.join(pkg, "utils"), build)
    return st


def native(utils, build):
    import pybind11

    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + pybind11.get_include()]
    so = os.path.join(utils, "BF" + sysconfig.get_config_var("EXT_SUFFIX"))
    srcs = sorted(f for f in os.listdir(utils) if f.endswith(".cc"))
    objs = [os.path.join(utils, s[:-3] + ".o") for s in srcs]
    if build == "plain":
        cc = ["g++", "-std=c++20", "-O1", "-g0", "-fPIC", "-fvisibility=hidden"]
        _run([cc + inc + ["-c", os.path.join(utils, s), "-o", o] for s, o in zip(srcs, objs)])
        _run([["g++", "-shared", "-o", so] + objs])
    else:
        cc = (
            "clang++ -std=c++20 -O1 -g0 -fPIC -fvisibility=hidden -fsanitize=thread "
            "-mllvm -tsan-instrument-func-entry-exit=0"
        ).split() + ["-fsanitize-ignorelist=" + os.path.join(NATIVE, "ignore.txt")]
        rt = os.path.join(utils, "libsimrt.so")

        def binding(s):
            with open(os.path.join(utils, s), errors="replace") as f:
                return "pybind11" in f.read()

        # the binding files come last: where both define a template instance the linker takes the instrumented one
        srcs.sort(key=lambda s: (binding(s), s))
        objs = [os.path.join(utils, s[:-3] + ".o") for s in srcs]
        extra = ["-fsanitize-ignorelist=" + os.path.join(NATIVE, "ignore_binding.txt")]
        _run(
            [
                cc + (extra if binding(s) else []) + inc + ["-c", os.path.join(utils, s), "-o", o]
                for s, o in zip(srcs, objs)
            ]
            + [
                "clang++ -std=c++20 -O2 -fPIC -fvisibility=hidden -fvisibility-inlines-hidden -shared".split()
                + inc
                + [os.path.join(NATIVE, "simrt.cc"), "-o", rt]
            ]
        )
        _run(
            [
                ["objcopy", "--redefine-syms=" + os.path.join(NATIVE, "redefine.syms"), o]
                for o in objs
            ]
        )
        _run([["clang++", "-shared", "-o", so] + objs + ["-L" + utils, "-lsimrt", "-Wl,-rpath,$ORIGIN"]])
        syms(so, os.path.join(utils, "BF.syms"))
    for o in objs:
        os.remove(o)


def syms(so, out):
    """Which address ranges of the extension are code of the binding library rather than of the repository."""
    t = subprocess.run(["nm", "-n", "--defined-only", so], stdout=subprocess.PIPE, text=True, check=True).stdout
    with open(out, "w") as f:
        for ln in t.splitlines():
            p = ln.split()
            if len(p) == 3 and p[1] in "tTwWuV":
                n = p[2]
                b = n.startswith(("_ZN8pybind11", "_ZNK8pybind11")) or (
                    n.startswith(("_ZNSt", "_ZNKSt", "_ZSt")) and ("pybind11" in n or "_object" in n or "type_in" in n)
                )
                f.write(f"{p[0]} {int(b)}\n")


def worker_env(workdir, st, hashseed="0"):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "HOME": workdir,
        "TMPDIR": workdir,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONPATH": st + os.pathsep + os.path.dirname(HERE),
        "JAX_PLATFORMS": "cpu",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(workdir, "mpl"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false",
        "VERIF_STAGE": st,
        "VERIF_WORK": workdir,
    }
    if os.path.exists(os.path.join(st, "fsrt.so")):
        env["LD_PRELOAD"] = env["VERIF_FSRT"] = os.path.join(st, "fsrt.so")
        env["SOURCE_DATE_EPOCH"] = "1000000000"
    mpl = env["MPLCONFIGDIR"]
    if not os.path.isdir(mpl):
        os.makedirs(mpl)
        if os.path.isdir("/opt/mplconfig"):
            for f in os.listdir("/opt/mplconfig"):
                p = os.path.join("/opt/mplconfig", f)
                if os.path.isfile(p):
                    shutil.copy(p, mpl)
    return env


PY = sys.executable
