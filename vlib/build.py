"""Builds the project from /repo's current working tree in a scratch directory, in several variants.

A variant is the product's own build (setup.py -> CMake -> pybind11 module) with other compiler
flags or another compiler; the sources are always a fresh copy of the working tree.
"""
import hashlib
import os
import shutil
import stat
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv-pypy/bin/python"
COMPAT = "-I/usr/include/pypy3.9 -include /opt/vp/compat/pypy_compat.h"
HERE = os.path.dirname(os.path.abspath(__file__))

UBSAN = ("-fsanitize=undefined,float-cast-overflow -fno-sanitize=vptr "
         "-fno-sanitize-recover=all")

# name -> (extra CXXFLAGS, compiler, strip the forced include where it is not needed,
#          CMake configuration flags appended after the configuration's own)
VARIANTS = {
    # the product as setup.py builds it
    "rel": dict(flags=""),
    # AddressSanitizer + UBSan + checked container accesses
    "asan": dict(flags="-g -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
                       "-D_GLIBCXX_SANITIZE_VECTOR -fsanitize=address " + UBSAN,
                 late="-O1 -fno-lto", preload=["libasan.so", "libubsan.so"]),
    # libstdc++ debug mode: iterator validity, ordered ranges, bounds
    "debug": dict(flags="-g -D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS " + UBSAN,
                  late="-O1 -fno-lto", preload=["libubsan.so"]),
    # run under valgrind's memcheck (uninitialised values, and invalid accesses in any code)
    "memcheck": dict(flags="-g", late="-O1 -fno-lto", tool="memcheck"),
    # other build configurations (property C18)
    "gcc-O0-pattern": dict(flags="-ftrivial-auto-var-init=pattern", late="-O0 -fno-lto"),
    "gcc-O2-zero": dict(flags="-ftrivial-auto-var-init=zero", late="-O2 -fno-lto"),
    "clang-O2": dict(flags="-ftrivial-auto-var-init=pattern", cxx="clang++", late="-O2"),
    # Only the files that need Python.h get it, as in any build that is not this sandbox's.
    "plain-headers": dict(flags="", strip=True),
}

SHIM = """#!%(py)s
import os, subprocess, sys
real, late, strip = %(real)r, %(late)r, %(strip)r
args = sys.argv[1:]
if "-c" in args:
    args = [a for a in args if not (late and a.startswith(("-flto", "-fno-fat-lto")))] + late
elif late:
    args = [a for a in args if not a.startswith("-flto")] + (["-fno-lto"] if "-fno-lto" in late else [])
if strip and "-c" in args and "-include" in args:
    i = args.index("-include")
    plain = args[:i] + args[i + 2:]
    # <cstdint> is what the forced header exists for with gcc >= 13; it declares no abs()
    r = subprocess.run([real] + plain, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode == 0:
        log = os.environ.get("VERIF_SHIM_LOG")
        if log:
            with open(log, "a") as f:
                f.write([a for a in args if a.endswith(".cpp")][-1] + "\\n")
        sys.exit(0)
os.execv(real, [real] + args)
"""


class BuildError(Exception):
    pass


def _ignore(d, names):
    drop = set()
    for n in names:
        if n.endswith((".so", ".pyc")) or n in (".git", "__pycache__", ".pytest_cache"):
            drop.add(n)
    rel = os.path.relpath(d, REPO)
    if rel == ".":
        drop.update(n for n in names if n in ("build", "dist", "example", "tests", ".tox"))
    if rel == "sacf/include/pybind11":
        drop.update(n for n in names if n in ("tests", "docs"))
    return drop


def copy_tree(dst):
    shutil.copytree(REPO, dst, ignore=_ignore, symlinks=True)


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        drop = _ignore(base, dirs + files)
        dirs[:] = sorted(d for d in dirs if d not in drop)
        for f in sorted(files):
            if f in drop:
                continue
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def base_env():
    env = {k: v for k, v in os.environ.items() if k.startswith(("VERIF_", "TMPDIR"))}
    env.update(HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return env


def start(variant, work):
    """Starts a build; returns (path of the tree, process or None)."""
    spec = VARIANTS[variant]
    cache = os.environ.get("VERIF_BUILD_CACHE")  # development only; never set by a check
    if cache:
        os.makedirs(cache, exist_ok=True)
        hit = os.path.join(cache, tree_hash() + "-" + variant)
        if os.path.exists(os.path.join(hit, ".done")):
            return hit, None
        shutil.rmtree(hit, ignore_errors=True)
        dst = hit
    else:
        dst = os.path.join(work, "b-" + variant)
    copy_tree(dst)
    env = base_env()
    env["PYTHONPATH"] = dst
    env["PIP_NO_INDEX"] = "1"
    env["CXXFLAGS"] = (COMPAT + " " + spec["flags"]).strip()
    late = spec.get("late", "").split()
    if spec.get("cxx") or late or spec.get("strip"):
        shim = os.path.join(dst, ".shim")
        os.mkdir(shim)
        real = shutil.which(spec.get("cxx", "g++"), path=env["PATH"])
        p = os.path.join(shim, "g++")
        with open(p, "w") as f:
            f.write(SHIM % dict(py="/usr/bin/python3", real=real, late=late,
                                strip=bool(spec.get("strip"))))
        os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR | stat.S_IXGRP)
        env["PATH"] = shim + ":" + env["PATH"]
        env["VERIF_SHIM_LOG"] = os.path.join(dst, ".shim.log")
    log = open(os.path.join(dst, ".build.log"), "w")
    proc = subprocess.Popen([PY, "setup.py", "build_ext", "--inplace"], cwd=dst, env=env,
                            stdout=log, stderr=subprocess.STDOUT)
    return dst, proc


def build(variants, work):
    """Builds all variants in parallel; returns {variant: path}."""
    started = {v: start(v, work) for v in variants}
    out = {}
    for v, (dst, proc) in started.items():
        if proc is not None:
            rc = proc.wait()
            so = [f for f in os.listdir(os.path.join(dst, "sacf")) if f.endswith(".so")]
            if rc != 0 or len(so) < 2:
                with open(os.path.join(dst, ".build.log"), errors="replace") as f:
                    tail = f.read()[-3000:]
                raise BuildError("build of variant %s failed (rc %s):\n%s" % (v, rc, tail))
            shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
            open(os.path.join(dst, ".done"), "w").close()
        out[v] = dst
    return out


def run_env(variant, tree):
    env = base_env()
    env["PYTHONPATH"] = tree
    spec = VARIANTS[variant]
    if spec.get("preload"):
        libs = []
        for l in spec["preload"]:
            libs.append(subprocess.check_output(["gcc", "-print-file-name=" + l],
                                                text=True).strip())
        env["LD_PRELOAD"] = ":".join(libs)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=1:"
                               "detect_stack_use_after_return=0:strict_string_checks=1:"
                               "handle_segv=1:allocator_may_return_null=1:"
                               "allow_user_segv_handler=1:hard_rss_limit_mb=3000:max_allocation_size_mb=2048")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return env
