"""Builds the tree, runs a property's workload in shards, watches them and gives the verdict.

exit 0: held on what was observed; 1: violated (VIOLATION line); 2: no verdict.
"""
import ast
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import special

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = os.path.join(VERIF, "workers")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

# CPU seconds one case may take before it is called endless (cases take milliseconds)
CASE_CPU = {"rel": 60, "asan": 120, "debug": 120, "memcheck": 600}
AS_LIMIT = 3 << 30
# seconds in which a worker and all its children neither use the processor nor wait for it or the
# disk, after which it is called blocked (they only ever wait for each other)
BLOCKED = 90.0


class Inconclusive(Exception):
    pass


def worker_constants(prop):
    """Module constants of a worker, without importing it (it needs PyPy)."""
    out = {}
    with open(os.path.join(WORKERS, prop.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def known_findings(prop):
    with open(KNOWN) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["known"] if e["property"] == prop}


class Shard(object):
    def __init__(self, ctx, variant, index, shards, count, name=None, case=None, extra_env=None,
                 tag=""):
        self.ctx, self.variant, self.index = ctx, variant, index
        self.spec = dict(variant=variant, shard=index, shards=shards, count=count, tag=tag)
        self.out = os.path.join(ctx.work, name or "s-%s%s-%d" % (variant, tag, index))
        os.makedirs(self.out, exist_ok=True)
        for f in ("result.json", "current"):
            p = os.path.join(self.out, f)
            if os.path.exists(p):
                os.unlink(p)
        tree = ctx.trees[variant]
        env = build.run_env(variant, tree)
        self.extra_env = extra_env or {}
        env.update(self.extra_env)
        env["TMPDIR"] = ctx.work
        cmd = [build.PY, os.path.join(WORKERS, "harness.py"), ctx.prop, "--seed", str(ctx.seed),
               "--shard", str(index), "--shards", str(shards), "--count", str(count), "--tier",
               ctx.tier, "--out", self.out, "--variant", variant, "--known", ",".join(ctx.known)]
        if case:
            cmd += ["--case", case]
        if build.VARIANTS[variant].get("tool") == "memcheck":
            log = os.path.join(self.out, "memcheck.log")
            env.update(VERIF_MEMCHECK_LIB=ctx.memcheck_lib(), VERIF_MEMCHECK_LOG=log)
            cmd = ["valgrind", "--tool=memcheck", "--error-limit=no", "--leak-check=no",
                   "--track-origins=yes", "--num-callers=40", "--vgdb=no", "--log-file=" + log,
                   cmd[0], "--jit", "off"] + cmd[1:]
        if ctx.deadline:
            cmd += ["--deadline", str(max(5, ctx.deadline - (time.time() - ctx.t0)))]
        self.err = open(os.path.join(self.out, "stderr"), "w")
        asan = variant in ("asan", "memcheck")  # they reserve address space

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not asan:
                resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
            os.setsid()

        self.proc = subprocess.Popen(cmd, env=env, cwd=self.out, stdout=self.err,
                                     stderr=subprocess.STDOUT, preexec_fn=limits)
        self.last = None
        self.cpu_at = 0.0
        self.hung = False
        self.blocked = False
        self.idle, self.idle_cpu, self.looked = 0.0, None, time.time()

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.proc.pid) as f:
                p = f.read().rsplit(")", 1)[1].split()
            return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def current(self):
        try:
            with open(os.path.join(self.out, "current")) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def poll(self):
        if self.proc.poll() is not None:
            return True
        cur = self.current()
        key = (cur or {}).get("index"), (cur or {}).get("t")
        if cur is not None and key != self.last:
            self.last = key
            self.cpu_at = self.cpu()
        elif self.last is not None and \
                self.cpu() - self.cpu_at > CASE_CPU.get(self.variant, 60) * self.ctx.cpu_factor:
            self.hung = True
            self.kill()
            return True
        now = time.time()
        if now - self.looked > .5:
            # pauses of this process itself do not count
            self.idle += min(now - self.looked, 1.0)
            self.looked = now
            cpu = self.group_cpu()
            if cpu is None or cpu != self.idle_cpu:
                self.idle, self.idle_cpu = 0.0, cpu
            elif self.idle > BLOCKED and self.last is not None:
                self.hung = self.blocked = True
                self.kill()
                return True
        return False

    def group_cpu(self):
        """Processor time of the worker's session in ticks; None if any of it could run now."""
        total = 0
        for d in os.listdir("/proc"):
            if not d.isdigit():
                continue
            try:
                with open("/proc/%s/stat" % d) as f:
                    p = f.read().rsplit(")", 1)[1].split()
            except (OSError, IndexError):
                continue
            if int(p[3]) != self.proc.pid:
                continue
            if p[0] in "RD":
                return None
            total += int(p[11]) + int(p[12])
        return total

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def result(self):
        self.err.close()
        p = os.path.join(self.out, "result.json")
        if os.path.exists(p):
            with open(p) as f:
                return json.load(f)
        return None

    def stderr(self):
        with open(os.path.join(self.out, "stderr"), errors="replace") as f:
            return f.read()


class Context(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.trees = {}
        self.known = known_findings(prop)
        self.cpu_factor = 1.0
        self.consts = worker_constants(prop)
        self.deadline = {"quick": 420.0, "thorough": 100000.0}[tier]
        self.merged = dict(counters={}, maxima={}, distinct=set(), samples=[], done=0, known={},
                           violations=[], records={}, stopped=[], variants=[])

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def build(self, variants):
        self.trees.update(build.build(variants, self.work))

    def memcheck_lib(self):
        so = os.path.join(self.work, "memcheck.so")
        if not os.path.exists(so):
            subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-o", so,
                            os.path.join(VERIF, "native", "memcheck.cpp")], check=True)
        return so

    def workers(self):
        return max(2, min(8, os.cpu_count() or 2))

    def run_shards(self, shards):
        """Waits for the shards; merges results; turns crashes and endless cases into violations."""
        pending = list(shards)
        while pending:
            time.sleep(0.05)
            pending = [s for s in pending if not s.poll()]
        bad = []
        for s in shards:
            res = s.result()
            if res is None:
                bad.append(s)
                continue
            self.merge(s, res)
        if bad and not self.merged["violations"]:
            # one is enough; the others usually died of the same
            self.crashed(bad[0])

    def merge(self, s, res):
        g = self.merged
        for k, v in res["counters"].items():
            g["counters"][k] = g["counters"].get(k, 0) + v
        for k, v in res["maxima"].items():
            g["maxima"][k] = max(v, g["maxima"].get(k, v))
        g["distinct"].update(res["distinct"])
        g["samples"] += res["samples"]
        g["done"] += res["done"]
        g["known"].update(res["known"])
        if res["stopped"]:
            g["stopped"].append(res["stopped"])
        for v in res["violations"]:
            v["shard"] = s.spec
            g["violations"].append(v)
        if res["records"]:
            g["records"].setdefault(s.variant + s.spec["tag"], {}).update(res["records"])

    def describe_death(self, s):
        if s.blocked:
            return "the call did not return (blocked, no processor time used for %d s)" % BLOCKED
        if s.hung:
            return "the call did not return (%d s of CPU time on one case)" % (
                CASE_CPU.get(s.variant, 60) * self.cpu_factor)
        rc = s.proc.returncode
        text = s.stderr()
        for line in text.splitlines():
            if "ERROR: AddressSanitizer" in line or "runtime error:" in line or \
                    "Assertion '" in line or "Error: attempt to" in line or "hard rss limit" in line:
                return line.strip()[-400:]
        return "the process ended with status %s: %s" % (rc, " | ".join(text.splitlines()[-4:])[-300:])

    def crashed(self, s):
        cur = s.current()
        what = self.describe_death(s)
        if cur is None:
            raise Inconclusive("a worker died before its first case: %s\n%s" % (what, s.stderr()[-2000:]))
        # confirm: the case alone, else the shard up to it (the workload is deterministic)
        path = os.path.join(self.work, "confirm.json")
        with open(path, "w") as f:
            json.dump(cur["case"], f)
        self.cpu_factor = 1.5
        c = Shard(self, s.variant, 0, 1, 1, name="confirm", case=path, extra_env=s.extra_env)
        while not c.poll():
            time.sleep(.05)
        res = c.result()
        alone = res is None
        if alone:
            what = self.describe_death(c)
        elif s.hung and not s.blocked:
            # slow, but it finishes: no verdict from a clock
            raise Inconclusive("a case took very long and then finished when repeated: %r" % (cur["index"],))
        self.merged["violations"].append(dict(
            what=what, detail=dict(confirmed_alone=alone, stderr=s.stderr()[-4000:]),
            case=cur["case"], index=cur["index"], shard=s.spec))


def write_replay(ctx, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-seed%d.json" % (ctx.prop, ctx.tier, ctx.seed))
    with open(p, "w") as f:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, what=v["what"],
                       detail=v.get("detail"), shard=v.get("shard"), index=v.get("index"),
                       case=v.get("case")), f, indent=1)
    return p


def clip(x, depth=0):
    if isinstance(x, list):
        if len(x) > 12:
            return [clip(a, depth + 1) for a in x[:10]] + ["... %d in all" % len(x)]
        return [clip(a, depth + 1) for a in x]
    if isinstance(x, dict):
        return {k: clip(v, depth + 1) for k, v in x.items()}
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    if isinstance(x, str) and len(x) > 400:
        return x[:400] + "..."
    return x


def write_evidence(ctx, extra=None):
    g = ctx.merged
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = dict(evaluations=g["done"], distinct_nontrivial=len(g["distinct"]),
               rule=ctx.consts.get("RULE", ""), samples=clip(g["samples"][:3]),
               observed=dict(sorted(g["counters"].items())), maxima=g["maxima"],
               build_variants=sorted(ctx.trees))
    if g["stopped"]:
        cov["stopped_early"] = sorted(set(g["stopped"]))
    cov.update(extra or {})
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed,
              level=ctx.consts.get("LEVEL", "exploration"), coverage=cov,
              assumptions=ctx.consts.get("ASSUMPTIONS", [
                  "judged on the executions produced, on PyPy 3.9 and x86-64 only"]),
              wall_s=round(time.time() - ctx.t0, 2), violations=len(g["violations"]))
    tmp = os.path.join(EVIDENCE, "." + ctx.prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, allow_nan=False)
    os.rename(tmp, os.path.join(EVIDENCE, ctx.prop + ".json"))


def verdict(ctx, extra=None):
    g = ctx.merged
    write_evidence(ctx, extra)
    if g["violations"]:
        v = g["violations"][0]
        p = write_replay(ctx, v)
        print("%s: %s" % (ctx.prop, v["what"]))
        for k, d in sorted((v.get("detail") or {}).items()):
            print("  %s: %s" % (k, str(d)[:700]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        return 1
    missing = [k for k, n in ctx.consts.get("MIN", {}).items() if g["counters"].get(k, 0) < n]
    if missing:
        print("%s: no verdict, too few events observed: %s" % (
            ctx.prop, {k: g["counters"].get(k, 0) for k in missing}))
        return 2
    for fid, e in sorted(ctx.known.items()):
        if fid not in g["known"]:
            print("%s: known finding %s was not observed; if it was repaired, update "
                  "known_findings.json" % (ctx.prop, fid))
        else:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, e["what"]))
    print("%s: held on %d cases (%d distinct, non-trivial) in %.1f s; %s" % (
        ctx.prop, g["done"], len(g["distinct"]), time.time() - ctx.t0,
        ", ".join("%s=%d" % kv for kv in sorted(g["counters"].items()) if kv[1] > 999)[:300]))
    return 0


def standard(ctx):
    variants = ctx.consts.get("VARIANTS", ["rel"])
    ctx.build(variants)
    for v in variants:
        total = ctx.consts["NCASES"][ctx.tier]
        share = ctx.consts.get("SHARE", {}).get(v, 1.0)
        n = ctx.workers()
        count = max(1, int(total * share) // n)
        ctx.run_shards([Shard(ctx, v, i, n, count) for i in range(n)])
        if ctx.merged["violations"]:
            break


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    ctx = Context(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            return replay(ctx, a.replay)
        kind = ctx.consts.get("DRIVER")
        if kind:
            getattr(special, kind)(ctx, Shard)
        else:
            standard(ctx)
        return verdict(ctx, getattr(ctx, "extra", None))
    except build.BuildError as e:
        print("%s: no verdict, %s" % (a.prop, e))
        return 2
    except Inconclusive as e:
        print("%s: no verdict, %s" % (a.prop, e))
        return 2
    finally:
        ctx.close()


def replay(ctx, path):
    with open(path) as f:
        r = json.load(f)
    ctx.seed, ctx.tier = r["seed"], r["tier"]
    sp = r["shard"]
    if ctx.consts.get("DRIVER"):
        getattr(special, ctx.consts["DRIVER"])(ctx, Shard)
        return verdict(ctx, getattr(ctx, "extra", None))
    ctx.build([sp["variant"]])
    case = os.path.join(ctx.work, "case.json")
    with open(case, "w") as f:
        json.dump(r["case"], f)
    ctx.run_shards([Shard(ctx, sp["variant"], 0, 1, 1, case=case)])
    if not ctx.merged["violations"]:
        ctx.run_shards([Shard(ctx, sp["variant"], sp["shard"], sp["shards"], sp["count"])])
    if ctx.merged["violations"]:
        v = ctx.merged["violations"][0]
        print("%s: %s" % (ctx.prop, v["what"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print("%s: not reproduced" % ctx.prop)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
