import ctypes
import gc

from common import *

RULE = ("random programs of 2 to 8 operations (creating series in every form, estimates with every "
        "function, re-runs and clears of a long-lived correlator, single steps, read-outs, failing calls "
        "of every kind), repeated in batches (of equal or of doubling length) with slightly changing inputs; after each "
        "batch and a full garbage collection the live operator-new bytes and blocks, the live Python objects and the open "
        "files are compared with those of the batches before; non-trivial: natively allocated at least "
        "one block per repetition; distinct by program")
DRIVER = "leaks"
LEVEL = "exploration"
NCASES = {"quick": 480, "thorough": 8000}
MIN = {"repetitions": 40000, "native_allocations": 1000000, "failing_operations": 10000,
       "long_lived_reruns": 5000, "long_histories": 20}
ASSUMPTIONS = ["native memory means what the extension modules get from operator new; memory taken "
               "directly from malloc is only watched through the size of the C heap (16 MB threshold)",
               "growth of less than one block or 8 bytes per repetition is not a leak"]

OPS = ["estimate", "estimate", "estimate_py", "estimate_fast", "estimate_multi", "returned", "file",
       "numpy", "rerun", "rerun_clear", "rerun_py", "shrink_grow", "steps", "reads", "iterators",
       "fail_shape", "fail_empty", "fail_ragged", "fail_file", "fail_emptyfile", "fail_order",
       "fail_resolution", "fail_resolution_py", "fail_late", "fail_type", "fail_index", "fail_index2",
       "fail_name", "orphan", "errors", "fail_errors", "many_lags"]


def generate(rng, i, tier):
    M = rng.choice([1, 2, 3, 8, 20, 60])
    t = gen.times(rng, M, rng.choice(["int", "step", "irr", "irrdy"]))[0]
    n = rng.choice([1, 1, 2, 4])
    v = [gen.values(rng, t, "gauss")[0] for _ in range(n)]
    ops = [OPS[(i * 5) % len(OPS)]] + [rng.choice(OPS) for _ in range(rng.randint(1, 7))]
    return dict(t=t, v=v, ops=ops, reps=rng.choice([20, 40]))


def fixed(tier):
    # long histories: what grows by doubling only shows when the repetitions double too
    t, v = [0.0, 1.0, 2.5], [[1.0, 2.0, 4.0]]
    for op in sorted(set(OPS)):
        yield dict(t=t, v=v * (1 if op == "file" else 2), ops=[op], reps=0,
                   long=150 if tier == "quick" else 1500)


class Probe(object):
    def __init__(self):
        lib = ctypes.CDLL(None)
        self.f = []
        for name in ("verif_live_bytes", "verif_live_blocks", "verif_new_calls", "verif_heap_bytes"):
            g = getattr(lib, name)
            g.restype = ctypes.c_long
            self.f.append(g)

    def calls(self):
        return self.f[2]()

    def read(self):
        last = None
        for _ in range(12):
            gc.collect()
            now = (self.f[0](), self.f[1]())
            if now == last:
                break
            last = now
        return dict(bytes=now[0], blocks=now[1], heap=self.f[3](), objects=len(gc.get_objects()),
                    files=len(os.listdir("/proc/self/fd")))


def setup(m):
    m.probe = Probe()
    m.scratch = Scratch()


def finish(m):
    m.scratch.close()


class World(object):
    def __init__(self, case, m):
        self.t, self.v, self.m = case["t"], case["v"], m
        self.T = self.t[-1] - self.t[0] or 1.0
        self.file = None
        self.long = Correlator(SACF(self.t, self.v).data)
        self.ser = SACF(self.t, self.v)

    def p(self, r):
        """Settings that differ from one repetition to the next."""
        return dict(min_lag=-self.T / 2 - r * 1e-9, max_lag=self.T * (1 + r * 1e-9),
                    lag_resolution=self.T / 9 * (1 - r * 1e-9), alpha=1.0 + r * 1e-3)

    def text(self, r):
        """A file's rows, comments and last line, none of them the same as before."""
        rows = ["%r,%r,0.1" % (a + r, b) for a, b in zip(self.t, self.v[0])]
        return "# file %d\n%s\nnothing %d\n%r,%r,%r # %d" % (
            r, "\n".join(rows), r, self.t[-1] + r + 1, 1.0, .5, r)

    def write(self, name, text):
        """One file at a time, under a name of its own."""
        if self.file is not None:
            os.remove(self.file)
        self.file = self.m.scratch.write(name, text.encode())
        return self.file

    def step(self, op, r):
        t, v, p = self.t, self.v, self.p(r)
        ser = self.ser
        if op == "estimate":
            SACF([x * (1 + r * 1e-9) for x in t], v[0]).autocorrelation(**p)
        elif op == "estimate_py":
            ser.autocorrelation(weight_function="gaussian", **p)
        elif op == "estimate_fast":
            SACF(t, v).autocorrelation(selection_function="fast",
                                       weight_function="fractional_squared", **p)
        elif op == "estimate_multi":
            SACF(t, [[x + r for x in row] for row in v * 2]).autocorrelation(**p)
        elif op == "returned":
            ser.autocorrelation(return_correlator=True, **p)[2].correlations()
        elif op == "file":
            SACF(filename=self.write("data%d.txt" % r, self.text(r))).autocorrelation(**p)
        elif op == "numpy":
            SACF(np.array(t), np.array(v[0])).autocorrelation(**p)
        elif op == "many_lags":
            ser.autocorrelation(min_lag=0.0, max_lag=self.T * 2, lag_resolution=self.T / 60)
        elif op in ("rerun", "rerun_clear", "rerun_py", "shrink_grow"):
            SACF.set_up_correlation(self.long, **p)
            if op == "rerun_clear":
                self.long.clearCorrelation()
            if op == "shrink_grow":
                self.long.lag_resolution = self.T / 3
                self.long.calculateStandardCorrelation()
                self.long.lag_resolution = self.T / 30
            if op == "rerun_py":
                SACF.find_correlation(self.long, "fast", "gaussian")
            else:
                self.long.calculateStandardCorrelation()
            self.m.count("long_lived_reruns")
        elif op == "steps":
            it = CorrelationIterator(r * .01, self.long.N_datasets)
            self.long.naturalSelectionFunctionIdx(it)
            self.long.deltaT(it)
            self.long.getFractionWeights(it)
            self.long.findCorrelation(it)
            self.long.addCorrelationData(it, 3)
        elif op == "iterators":
            [CorrelationIterator(0.0, 50) for _ in range(3)]
        elif op == "reads":
            d = ser.data
            (d.data(), d.errors(), d.timeseries(), d.normalised_data(), d.normalised_timeseries(),
             d.mean_data, d.median_time, d.max_time)
            self.long.lag_timeseries(), self.long.correlations(), self.long.values()
        elif op == "orphan":
            c = Correlator(DataStructure(t, v))
            c.max_lag = c.min_lag = 0.0
            c.calculateStandardCorrelation()
        elif op == "errors":
            SACF(t, v, [[abs(x) + r for x in row] for row in v]).data.errors()
        else:
            self.fail(op, p, r)

    def fail(self, op, p, r):
        t, v = self.t, self.v
        self.m.count("failing_operations")
        try:
            if op == "fail_shape":
                SACF(t, v[0] + [1.0])
            elif op == "fail_empty":
                SACF([], [])
            elif op == "fail_ragged":
                SACF(t, [v[0], v[0] + [1.0]])
            elif op == "fail_errors":
                SACF(t, v[0], v[0] + [1.0])
            elif op == "fail_file":
                SACF(filename="/nonexistent/%d" % r)
            elif op == "fail_emptyfile":
                SACF(filename=self.write("empty%d.txt" % r, "# nothing %d\n\nno row %d" % (r, r)))
            elif op == "fail_order":
                SACF([1.0 + r, 1.0, 2.0] * 10, [1.0] * 30).autocorrelation()
            elif op == "fail_resolution":
                self.ser.autocorrelation(min_lag=0.0, lag_resolution=0.0)
            elif op == "fail_resolution_py":
                self.ser.autocorrelation(min_lag=0.0, lag_resolution=-1.0 - r, selection_function="fast")
            elif op == "fail_late":
                self.ser.autocorrelation(min_lag=2.0 ** 53 - 5, max_lag=2.0 ** 53 + 9,
                                         lag_resolution=1.0)
            elif op == "fail_type":
                SACF(t, "abc")
            elif op == "fail_index":
                it = CorrelationIterator(0.0, 0)
                self.long.naturalSelectionFunctionIdx(it)
                self.long.deltaT(it)
                self.long.getFractionWeights(it)
                self.long.findCorrelation(it)
            elif op == "fail_index2":
                self.long.addCorrelationData(CorrelationIterator(0.0, 1), -1)
            else:
                self.ser.autocorrelation(min_lag=0.0, selection_function="nope%d" % r)
        except Exception:
            return
        self.m.count("failing_operation_returned:" + op)


WARM, MEASURED = 4, 4


def run(case, m):
    w = World(case, m)
    reads = []
    calls = 0
    r = 0
    batches = [case["reps"]] * (WARM + MEASURED)
    if case.get("long"):
        batches = [case["long"] * 2 ** max(0, b - 3) for b in range(WARM + MEASURED)]
        m.count("long_histories")
    for reps in batches:
        c0 = m.probe.calls()
        for _ in range(reps):
            for op in case["ops"]:
                w.step(op, r)
            r += 1
            if r % 100 == 0 and case.get("long"):
                gc.collect()    # or the tables of the binding grow with the objects waiting for it
        calls = m.probe.calls() - c0
        m.count("repetitions", reps)
        m.count("native_allocations", calls)
        reads.append(m.probe.read())
    tail = reads[WARM - 1:]
    n = sum(batches[WARM:])
    per = 3 if case.get("long") else 8
    for name, least in (("bytes", per * n), ("blocks", n), ("objects", n), ("heap", 16 << 20),
                        ("files", MEASURED)):
        x = [q[name] for q in tail]
        if all(b > a for a, b in zip(x, x[1:])) and x[-1] - x[0] >= least:
            m.violate("memory in use grows with every batch", what=name, after_each_batch=x,
                      repetitions=n, operations=case["ops"])
            return
    m.peak("live_native_bytes", tail[-1]["bytes"])
    m.peak("largest_drift_native_bytes", tail[-1]["bytes"] - tail[0]["bytes"])
    m.peak("largest_drift_objects", tail[-1]["objects"] - tail[0]["objects"])
    if calls >= batches[-1]:
        m.seen(case["ops"], case["t"])
