"""Locate (or build in a scratch directory) the code under test.

`target()` returns a Target whose .path must come first on PYTHONPATH.  When the
compiled extensions beside /repo's sources are up to date (content hashes, not
file times) the tree is used as it is; otherwise a scratch copy is made outside
/repo, only what changed is rebuilt with the project's own build.py, and the
copy is removed by .close().  /repo itself is never written to.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
STATE = "build/.vp-state.json"
RUNNING = "build/.vp-running"
GENERATED = b"/* Generated by Cython"
EXTS = (".pyx", ".pxd", ".h", ".c", ".cpp", ".hpp", ".pxi")


def digest(path):
    with open(path, "rb") as f:
        data = f.read()
    return None if data.startswith(GENERATED) else hashlib.sha256(data).hexdigest()


def hashes(root):
    found = {"build.py": digest(os.path.join(root, "build.py"))}
    for dirpath, _, names in os.walk(os.path.join(root, "mmcore")):
        for name in names:
            if name.endswith(EXTS):
                path = os.path.join(dirpath, name)
                h = digest(path)
                if h:
                    found[os.path.relpath(path, root)] = h
    return found


def extension_sources(root):
    """(so path prefix) for every extension named in build.py, read from its text."""
    import re
    text = open(os.path.join(root, "build.py")).read()
    # strip commented lines
    text = "\n".join(l for l in text.splitlines() if not l.lstrip().startswith("#"))
    return sorted(set(re.findall(r'"(mmcore(?:\.\w+)+)"\s*,', text)))


def missing_sos(root):
    out = []
    for name in extension_sources(root):
        base = os.path.join(root, *name.split("."))
        d, b = os.path.split(base)
        if not os.path.isdir(d) or not any(f.startswith(b + ".cpython-") and f.endswith(".so") for f in os.listdir(d)):
            out.append(name)
    return out


class BuildError(Exception):
    pass


class Target:
    def __init__(self, path, scratch, info):
        self.path, self.scratch, self.info = path, scratch, info

    def close(self):
        if self.scratch and os.path.isdir(self.scratch):
            shutil.rmtree(self.scratch, ignore_errors=True)


RUN_BUILD = r"""
import os, sys, runpy
from setuptools.command.build_ext import build_ext
i = build_ext.initialize_options
def init(self):
    i(self)
    self.parallel = os.cpu_count()
build_ext.initialize_options = init
sys.argv = ["build.py"]
runpy.run_path("build.py", run_name="__main__")
"""


def env_for(path, extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", HOME=env.get("HOME", "/root"),
        LANG="C.UTF-8", VERIF_TARGET=path,
    )
    if extra:
        env.update(extra)
    return env


def copy_tree(repo, dest):
    """a scratch copy of what the build needs, with times preserved"""
    os.makedirs(dest, exist_ok=True)
    subprocess.check_call(["cp", "-a", os.path.join(repo, "mmcore"), os.path.join(repo, "build.py"), dest])
    for extra in ("build", "pyproject.toml", "README.md"):
        p = os.path.join(repo, extra)
        if os.path.exists(p):
            subprocess.check_call(["cp", "-a", p, dest])


def rebuild(root, repo, new, old, full, extra=None):
    for path in sorted(set(new) | set(old or {})):
        if (old or {}).get(path) == new.get(path):
            continue
        edited = path in new and path in (old or {})
        if not path.endswith(".pyx") and not (edited and path.endswith((".pxd", "/triangle.c"))):
            full = True
        if path in new:
            os.utime(os.path.join(root, path))
    if full:
        shutil.rmtree(os.path.join(root, "build"), ignore_errors=True)
        try:
            tracked = set(subprocess.run(
                ["git", "-c", "safe.directory=*", "-C", repo, "ls-files", "mmcore"],
                check=True, capture_output=True, text=True).stdout.split("\n"))
        except (OSError, subprocess.CalledProcessError):
            tracked = set()
        for path in new:
            if path.endswith(".pyx"):
                for ext in (".c", ".cpp"):
                    c = path[:-4] + ext
                    full_c = os.path.join(root, c)
                    if os.path.exists(full_c) and c not in tracked and digest(full_c) is None:
                        os.remove(full_c)
    p = subprocess.run([PY, "-c", RUN_BUILD], cwd=root, env=env_for(root, extra), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0 or missing_sos(root):
        raise BuildError(p.stdout[-4000:])
    return full


def target(repo=None):
    repo = repo or REPO
    new = hashes(repo)
    try:
        old = json.load(open(os.path.join(repo, STATE)))
    except (OSError, ValueError):
        old = None
    running = os.path.exists(os.path.join(repo, RUNNING))
    if old == new and not running and not missing_sos(repo):
        return Target(repo, None, "in place (build products match the sources)")
    scratch = tempfile.mkdtemp(prefix="verif-build-")
    try:
        copy_tree(repo, scratch)
        full = rebuild(scratch, repo, new, old, full=(old is None or running or bool(missing_sos(scratch))))
        changed = [] if old is None else [p for p in sorted(set(new) | set(old)) if old.get(p) != new.get(p)]
        return Target(scratch, scratch, "scratch rebuild (%s): %s" % ("full" if full else "incremental", ", ".join(changed[:6])))
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fsanitize-recover=all"]


def sanitized(repo=None):
    """a scratch copy whose extensions are all compiled with AddressSanitizer and UndefinedBehaviorSanitizer"""
    repo = repo or REPO
    new = hashes(repo)
    try:
        old = json.load(open(os.path.join(repo, STATE)))
    except (OSError, ValueError):
        old = None
    full = old is None or os.path.exists(os.path.join(repo, RUNNING))
    scratch = tempfile.mkdtemp(prefix="verif-san-")
    try:
        copy_tree(repo, scratch)
        shutil.rmtree(os.path.join(scratch, "build"), ignore_errors=True)
        for dirpath, _, names in os.walk(os.path.join(scratch, "mmcore")):
            for name in names:
                if name.endswith(".so"):
                    os.remove(os.path.join(dirpath, name))
        tools = {}
        for var, cc in (("CC", "gcc"), ("CXX", "g++")):
            tools[var] = os.path.join(scratch, "san-" + cc)
            with open(tools[var], "w") as f:
                f.write("#!/bin/bash\nout=()\nfor a in \"$@\"; do case \"$a\" in -O3|-O2|-g) ;; *) out+=(\"$a\");; esac; done\n"
                        "exec %s \"${out[@]}\" %s\n" % (cc, " ".join(SAN)))
            os.chmod(tools[var], 0o755)
        tools["LDSHARED"] = tools["CC"] + " -shared"
        tools["LDCXXSHARED"] = tools["CXX"] + " -shared"
        rebuild(scratch, repo, new, old, full, tools)
        shutil.rmtree(os.path.join(scratch, "build"), ignore_errors=True)
        return Target(scratch, scratch, "scratch build with -fsanitize=address,undefined")
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


def san_env(logdir):
    libs = [subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
            for n in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
    return {
        "LD_PRELOAD": " ".join(libs),
        "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                        "handle_segv=1:log_path=%s/asan" % logdir,
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan" % logdir,
        "PYTHONMALLOC": "malloc", "VERIF_SANLOG": logdir,
    }


if __name__ == "__main__":
    t = target()
    print(t.path, t.info)
    t.close()
