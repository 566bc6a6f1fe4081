"""Properties whose workload needs more than running shards on built variants."""
import json
import os
import random
import subprocess

import build

HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = os.path.join(os.path.dirname(HERE), "native")


def leaks(ctx, Shard):
    """C16: the workers run with an operator new/delete that keeps count."""
    so = os.path.join(ctx.work, "newcount.so")
    subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(NATIVE, "newcount.cpp")],
                   check=True)
    ctx.build(["rel"])
    n = ctx.workers()
    count = max(1, ctx.consts["NCASES"][ctx.tier] // n)
    ctx.run_shards([Shard(ctx, "rel", i, n, count, extra_env={"LD_PRELOAD": so}) for i in range(n)])


def builds(ctx, Shard):
    """C18: one workload in several builds and memory fillings; the numbers must agree."""
    ctx.build(["rel", "gcc-O0-pattern", "gcc-O2-zero", "clang-O2", "plain-headers", "memcheck"])
    with open(os.path.join(ctx.trees["plain-headers"], ".shim.log")) as f:
        stripped = [l.strip() for l in f if l.strip()]
    configs = [("rel", "", {})]
    configs += [("rel", "+fill%d" % v, {"MALLOC_PERTURB_": str(v)}) for v in (85, 170, 255)]
    configs += [(v, "", {}) for v in ("gcc-O0-pattern", "gcc-O2-zero", "clang-O2", "plain-headers")]
    configs += [("gcc-O0-pattern", "+fill1", {"MALLOC_PERTURB_": "1"})]
    # valgrind follows which values are uninitialised; it is slow, so it gets some of the cases
    configs += [("memcheck", "", {})]
    n = ctx.workers()
    count = max(1, ctx.consts["NCASES"][ctx.tier] // n)
    shards = {}
    # one shard index at a time, so that thorough runs do not keep all records in memory
    parts = 1 if ctx.tier == "quick" else 4
    c = ctx.merged["counters"]
    c["configurations"] = len(configs)
    c["files_without_forced_headers"] = len(set(stripped))
    for part in range(parts):
        ctx.merged["records"].clear()
        for v, tag, env in configs:
            some = count // parts // (12 if v == "memcheck" else 1)
            ctx.run_shards([Shard(ctx, v, part * n + i, parts * n, some, extra_env=env,
                                  tag=tag) for i in range(n)])
            if ctx.merged["violations"]:
                return
        compare(ctx, configs)
        if ctx.merged["violations"]:
            return


def compare(ctx, configs):
    rec = ctx.merged["records"]
    c = ctx.merged["counters"]
    base = rec["rel"]
    biggest = 0.0
    for v, tag, _ in configs[1:]:
        other = rec.get(v + tag, {})
        for key, a in base.items():
            b = other.get(key)
            if b is None:
                continue
            c["cases_compared"] = c.get("cases_compared", 0) + 1
            c["numbers_compared"] = c.get("numbers_compared", 0) + len(a)
            bad = None
            if len(a) != len(b):
                bad = "another number of results: %d, %d" % (len(a), len(b))
            else:
                for q, (x, y) in enumerate(zip(a, b)):
                    if x == y or (x != x and y != y):
                        continue
                    d = abs(x - y) / max(1.0, abs(x))
                    if not d <= 1e-9:
                        bad = "number %d: %r in the product build, %r here" % (q, x, y)
                        break
                    biggest = max(biggest, d)
            if bad:
                ctx.merged["violations"].append(dict(
                    what="configuration %s%s gives another result" % (v, tag),
                    detail=dict(difference=bad), case=None, index=int(key),
                    shard=dict(variant=v, tag=tag, shard=0, shards=1, count=1)))
                return
            if len(a) >= 10:
                ctx.merged["distinct"].add(key)
    ctx.merged["maxima"]["largest_relative_difference"] = max(
        biggest, ctx.merged["maxima"].get("largest_relative_difference", 0.0))


def faults(ctx, Shard):
    """C23: the workers run with an operator new and a read() that fail on request."""
    so = os.path.join(ctx.work, "faults.so")
    subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(NATIVE, "faults.cpp"),
                    "-ldl"], check=True)
    ctx.build(["rel", "debug"])
    n = ctx.workers()
    for v, share in (("rel", .7), ("debug", .3)):
        count = max(1, int(ctx.consts["NCASES"][ctx.tier] * share) // n)
        libs = build.run_env(v, ctx.trees[v]).get("LD_PRELOAD")
        ctx.run_shards([Shard(ctx, v, i, n, count,
                              extra_env={"LD_PRELOAD": so + (":" + libs if libs else "")})
                        for i in range(n)])
        if ctx.merged["violations"]:
            return


def locales(ctx, Shard):
    """C11: some of the workers live in a locale that writes decimal commas."""
    env = {}
    loc = os.path.join(ctx.work, "locale")
    os.makedirs(loc)
    try:
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(loc, "de_DE.UTF-8")],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        env = {"LOCPATH": loc, "LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "VERIF_LOCALE": "1"}
    except (OSError, subprocess.CalledProcessError):
        pass    # judged without; the evidence shows it (cases_with_decimal_comma)
    ctx.build(["rel"])
    n = ctx.workers()
    count = max(1, ctx.consts["NCASES"][ctx.tier] // n)
    ctx.run_shards([Shard(ctx, "rel", i, n, count, extra_env=env if i % 3 == 1 else None)
                    for i in range(n)])
