"""Runs one shard of one property's workload under PyPy, with the monitors of that property.

usage: harness.py PROP --seed S --shard I --shards N --count C --tier T --out DIR
                  [--variant V] [--case FILE]

Writes DIR/current (the case being executed, before it is executed) and DIR/result.json.
"""
import argparse
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

MAX_VIOLATIONS = 3


class Monitor(object):
    """Collects what was observed; the property's oracle reports through it."""

    def __init__(self, prop, known):
        self.prop = prop
        self.counters = {}
        self.maxima = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_ids = known
        self.known_hits = {}
        self.records = {}
        self.case = None
        self.index = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, v):
        if v > self.maxima.get(name, float("-inf")):
            self.maxima[name] = v

    def seen(self, *sig):
        """Registers the signature of a non-trivial case."""
        self.distinct.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def violate(self, _msg, **detail):
        if len(self.violations) < 50:
            self.violations.append(dict(what=_msg, detail={k: repr(v)[:600] for k, v in detail.items()},
                                        case=self.case, index=self.index))

    def known(self, fid, what, **detail):
        """A deviation that matches the mechanism of a listed finding."""
        if fid in self.known_ids:
            self.known_hits.setdefault(fid, what)
            self.count("known:" + fid)
        else:
            self.violate(what, finding=fid, **detail)

    def record(self, key, value):
        self.records[key] = value


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--count", type=int, default=10)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--variant", default="rel")
    ap.add_argument("--case")
    ap.add_argument("--known", default="")
    ap.add_argument("--deadline", type=float, default=0)
    a = ap.parse_args()
    faulthandler.enable()
    cur = os.open(os.path.join(a.out, "current"), os.O_WRONLY | os.O_CREAT, 0o644)
    mod = importlib.import_module(a.prop.lower())
    m = Monitor(a.prop, set(x for x in a.known.split(",") if x))
    m.variant = a.variant
    m.tier = a.tier
    m.out = a.out

    def mark(i, case):
        data = json.dumps(dict(index=i, t=time.time(), case=case)).encode()
        os.pwrite(cur, data, 0)
        os.ftruncate(cur, len(data))

    done = 0
    stopped = None
    t0 = time.time()
    if a.case:
        with open(a.case) as f:
            todo = [(0, json.load(f))]
    else:
        def gen():
            fixed = list(mod.fixed(a.tier)) if hasattr(mod, "fixed") else []
            for i in range(a.shard, len(fixed), a.shards):
                yield -1 - i, fixed[i]
            i = a.shard
            for _ in range(a.count):
                rng = random.Random("%s/%d/%d" % (a.prop, a.seed, i))
                yield i, mod.generate(rng, i, a.tier)
                i += a.shards
        todo = gen()
    watch = None
    if a.variant == "memcheck":
        import memcheck
        watch = memcheck.Memcheck(m)
    if hasattr(mod, "setup"):
        mod.setup(m)
    for i, case in todo:
        if a.deadline and time.time() - t0 > a.deadline:
            stopped = "deadline"
            break
        m.case, m.index = case, i
        mark(i, case)
        try:
            mod.run(case, m)
        except Exception as e:
            m.violate("a valid use raised %s: %s" % (type(e).__name__, str(e)[:300]),
                      traceback=traceback.format_exc()[-1500:])
        if watch:
            watch.check()
        done += 1
        if len(m.samples) < 2 and i >= 0:
            m.samples.append(case)
        if len(m.violations) >= MAX_VIOLATIONS:
            stopped = "violations"
            break
    m.case = None
    if hasattr(mod, "finish") and not m.violations:
        mod.finish(m)
    if a.case:
        m.samples = []
    res = dict(done=done, stopped=stopped, counters=m.counters, maxima=m.maxima,
               distinct=sorted(m.distinct), samples=m.samples, violations=m.violations,
               known=m.known_hits, records=m.records, wall=time.time() - t0)
    tmp = os.path.join(a.out, "result.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(a.out, "result.json"))
    # no interpreter shutdown: finalisers after the verdict are not part of the workload
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
