import ctypes
import gc
import sys
import time

from common import *

RULE = ("one kind of call (construction, loading, estimates with every function, re-runs, reading the results) "
        "at a size and at 8 and 32 (of many datasets also 64) times that size in samples, lags or datasets; the peak of native memory of "
        "every call and the CPU time's growth are watched; non-trivial: the larger call was measured "
        "against the smaller one; distinct by kind of call, dimension, sampling and sizes")
DRIVER = "leaks"
NCASES = {"quick": 465, "thorough": 4000}
MIN = {"peaks_in_use": 20, "growth_measured": 550, "peaks_measured": 900, "large_calls": 600}
ASSUMPTIONS = ["CPU time is compared with itself at another size in the same process, with a margin of a "
               "factor 9 over linear growth, confirmed by repetition: a cost that grows with the square "
               "exceeds it 3 times over"]

OPS = {"samples": ["construct", "errors", "file", "file_noise", "file_errors", "estimate", "gaussian", "fast",
                   "squared_py", "steps", "read"],
       "lags": ["estimate", "gaussian", "fast", "rerun", "cleared", "returned", "estimate_rows", "many_rows", "gaussian_many_rows",
                "rerun_many_rows"],
       "both": ["estimate", "rerun", "returned", "gaussian", "fast", "squared_py"],
       "datasets": ["construct_rows", "errors_rows", "estimate_rows", "gaussian_rows", "read_rows"]}
BASE = {"samples": [1500, 3000], "lags": [800, 1500], "datasets": [12, 30, 600], "both": [60, 90]}
COMBOS = [(d, o) for d in sorted(OPS) for o in OPS[d]]


def generate(rng, i, tier):
    dim, op = COMBOS[i % len(COMBOS)]
    return dict(dim=dim, op=op, kind=rng.choice(["even", "irregular", "gaps", "cluster", "geometric"]),
                values=rng.choice(["plain", "plain", "plain", "missing", "constant", "ordered"]),
                base=rng.choice(BASE[dim]), alpha=rng.choice([None, None, .1]), x=rng.randrange(1 << 30),
                span=rng.choice([[0.0, .9], [-.5, .5], [.3, .3001], [.97, 1.0], [-1.2, -.1]]))


def setup(m):
    lib = ctypes.CDLL(None)
    m.reset, m.peak_bytes, m.live = lib.verif_reset_peak, lib.verif_peak_bytes, lib.verif_live_bytes
    m.peak_bytes.restype = m.live.restype = ctypes.c_long
    m.scratch = Scratch()


def finish(m):
    m.scratch.close()


def axis(kind, M, rng):
    if kind == "even":
        return [float(i) for i in range(M)]
    if kind == "irregular":
        return gen.cum(0.0, [rng.uniform(.5, 1.5) for _ in range(M - 1)])
    if kind == "gaps":
        return gen.cum(3.5, [1.0 if rng.random() < .99 else 200.0 for _ in range(M - 1)])
    if kind == "geometric":
        # gaps from very short to very long
        f = 10.0 ** (rng.choice([8, 40, 200]) / float(M))
        return [f ** i for i in range(M)]
    # nearly all samples close together, at the start or at the end
    t = gen.cum(0.0, [1e-3] * (M - 3) + [M / 2.0] * 2)
    return t if rng.random() < .5 else [t[-1] - x for x in reversed(t)]


def collecting(go, every):
    """Makes a call while garbage is collected every so many lines of the package's Python code:
    what it then holds is in use."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] % every == 0:
                gc.collect()
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename == SOURCE else None)
    try:
        return go()
    finally:
        sys.settrace(None)


SOURCE = sys.modules["sacf.sacf"].__file__


class Call(object):
    """A call of some size, ready to be made."""

    def __init__(self, case, m, factor):
        import random
        rng = random.Random(case["x"])
        dim, op = case["dim"], case["op"]
        size = case["base"] * factor
        M = size if dim in ("samples", "both") else (20 if case["base"] < 100 else 4) if dim == "datasets" else 4
        N = size if dim == "datasets" else 60 if op.endswith("many_rows") else 2 if op.endswith("_rows") else 1
        L = size if dim in ("lags", "both") else 6
        if op.endswith("many_rows"):
            op = op[:-9].rstrip("_") or "estimate"
            rows_in = True
            L //= 2
        else:
            rows_in = op.endswith("_rows")
        t = axis(case["kind"] if M > 4 else "irregular", M, rng)
        v = [[((i * 7919 + j * 31) % 1009) / 64.0 for i in range(M)] for j in range(N)]
        kind = case.get("values")
        if kind == "missing":
            v = [[x if (i * 13 + j) % 8 == 3 else NAN for i, x in enumerate(r)] for j, r in enumerate(v)]
        elif kind == "constant":
            v = [[2.5] * M for r in v]
        elif kind == "ordered":
            v = [sorted(r, reverse=bool(j % 2)) for j, r in enumerate(v)]
        T = t[-1] - t[0]
        lo, hi = [x * T for x in case["span"]]
        p = dict(min_lag=lo, max_lag=hi, lag_resolution=(hi - lo) / (L - .5))
        if case["alpha"]:
            p["alpha"] = case["alpha"] * T
        self.lags = L + 3
        self.numbers = M + M * N + (L + 3) * (N + 1)
        self.prepare = None
        if op == "construct":
            self.go = lambda: SACF(t, v[0])
        elif op == "construct_rows":
            self.go = lambda: SACF(t, v)
        elif op == "errors":
            self.go = lambda: SACF(t, v[0], v[0])
            self.numbers += M
        elif op == "errors_rows":
            self.go = lambda: SACF(t, v, v)
            self.numbers += M * N
        elif op == "file":
            path = m.scratch.write("f.txt", "".join(
                "%r %r\n" % z for z in zip(t, v[0])).encode())
            self.go = lambda: SACF(filename=path)
        elif op in ("file_noise", "file_errors"):
            # rows between lines that are skipped, or with and without an error
            noise = ["# %r\n", "\n", "time flux %r\n", "%r,\n", ",%r\r\n", "#\n"]
            out = []
            for i, z in enumerate(zip(t, v[0])):
                if op == "file_noise":
                    x = noise[i % len(noise)]
                    out.append(x % z[0] if "%" in x else x)
                out.append("%r,%r\n" % z if op == "file_noise" else
                           "%r,%r,%s\r\n" % (z + (("1.5", "x", "")[i % 3],)))
            path = m.scratch.write("f.txt", "".join(out).encode())
            self.go = lambda: SACF(filename=path)
            self.numbers += M
        else:
            S = SACF(t, v if rows_in else v[0])
            if op in ("estimate", "estimate_rows"):
                self.go = lambda: S.autocorrelation(**p)
            elif op in ("gaussian", "gaussian_rows"):
                self.go = lambda: S.autocorrelation(weight_function="gaussian", **p)
            elif op == "squared_py":
                self.go = lambda: S.autocorrelation(weight_function="fractional_squared", **p)
            elif op == "fast":
                self.go = lambda: S.autocorrelation(selection_function="fast", **p)
            elif op == "returned":
                self.go = lambda: S.autocorrelation(return_correlator=True, **p)
            elif op == "rerun":
                c = Correlator(S.data)
                SACF.set_up_correlation(c, **p)
                c.calculateStandardCorrelation()

                def rerun():
                    c.calculateStandardCorrelation()
                    return c.lag_timeseries(), c.correlations()
                self.go = rerun
            elif op == "cleared":
                c = Correlator(S.data)
                SACF.set_up_correlation(c, **p)

                def cleared():
                    c.calculateStandardCorrelation()
                    n = len(c.lag_timeseries())
                    c.cleanCorrelationData(n // 2)
                    c.cleanCorrelationData(n)
                    c.clearCorrelation()
                    return n
                self.go = cleared
            elif op == "steps":
                c = Correlator(S.data)

                def steps():
                    it = CorrelationIterator(.4 * T, 1)
                    c.naturalSelectionFunctionIdx(it)
                    c.deltaT(it)
                    c.getFractionWeights(it)
                    c.findCorrelation(it)
                    return it.correlation
                self.go = steps
            else:
                d = S.data
                self.go = lambda: (d.data(), d.timeseries(), d.normalised_data(),
                                   d.normalised_timeseries(), d.mean_data)

        if dim == "both" and op in ("gaussian", "fast", "squared_py"):
            plain = self.go
            self.go = lambda: collecting(plain, max(40, L // 10))

    def cpu(self, repeats):
        """The least CPU time of one call."""
        best = None
        for _ in range(repeats):
            t0 = time.process_time()
            n = 0
            while True:
                self.go()
                n += 1
                dt = time.process_time() - t0
                if dt > .004 or n >= 40:
                    break
            dt /= n
            best = dt if best is None else min(best, dt)
        return best


# numbers of 8 bytes held at most per number of the input and output; the Python loop's iterators
# stay until the next collection, up to 7 lags of them here
NUMBERS = 20
NUMBERS_PYTHON = 120


def measure_peak(case, m, call, factor):
    gc.collect()
    m.reset()
    before = m.live()
    r = call.go()
    used = m.peak_bytes() - before
    r = None
    m.count("peaks_measured")
    # lines between two collections hold some iterators; without, whatever the interpreter leaves
    python = case["op"].startswith(("gaussian", "fast", "squared"))
    if python and case["dim"] == "both":
        m.count("peaks_in_use")
        m.peak("peak_in_use_per_number", used / 8.0 / (call.numbers + 1000))
    m.peak("peak_per_number" + "_python" * python, used / 8.0 / (call.numbers + 1000))
    if used > 8 * (NUMBERS_PYTHON if python else NUMBERS) * (call.numbers + 1000):
        m.violate("a call uses far more memory than its input and result", bytes=used,
                  numbers=call.numbers, factor=factor, operation=case["op"], dimension=case["dim"])
        return False
    return True


def run(case, m):
    small = Call(case, m, 1)
    if not measure_peak(case, m, small, 1):
        return
    for _ in range(3):
        small.go()      # compiled by now
    a = max(small.cpu(5), 2e-6)
    for factor in (8, 32, 64) if case["base"] == 600 else (8, 32):
        large = Call(case, m, factor)
        m.count("large_calls")
        if not measure_peak(case, m, large, factor):
            return
        if case["dim"] == "both":
            continue        # the time grows with the square here
        worst = b = None
        for attempt in range(8):
            one = large.cpu(1)
            b = one if b is None else min(b, one)
            worst = b / a / factor
            if worst <= 5 or b > 4 or attempt > 2 and worst > 20:
                break
            # the small call's slowest fastest time: it may have been measured at a better moment
            a = max(a, small.cpu(5))
        m.count("growth_measured")
        m.peak("growth_over_linear:%s:%s:%d" % (case["dim"], case["op"], factor), worst)
        if worst > 9:
            if factor == 8 or factor == 32 and case["base"] == 600:
                continue    # a larger factor shows it more clearly
            m.violate("the cost of a call grows much faster than its size", times=factor,
                      cpu=(a, b), operation=case["op"], dimension=case["dim"])
            return
    m.seen(case["dim"], case["op"], case["kind"], case["base"], case["x"])
