from common import *
import memcheck

RULE = ("random programs of 8 to 60 calls over pools of series, correlators and iterators (also each "
        "other's), with hostile sizes, orders, indices, special values, files of random bytes, more lags "
        "than the defaults allow, dropped objects; run in the AddressSanitizer + UBSan + checked-vector "
        "build, in the libstdc++ debug-mode + UBSan build, and some under valgrind's memcheck; non-trivial: at least 5 calls returned and "
        "1 raised; distinct by program")
NCASES = {"quick": 12000, "thorough": 200000}
SHARE = {"debug": 0.6, "memcheck": 0.02}
VARIANTS = ["asan", "debug", "memcheck"]
MIN = {"calls_returned": 100000, "calls_refused": 20000, "estimates": 5000, "beyond_default_room": 1500,
       "foreign_iterators": 2000, "shrunk_and_reused": 1000, "files": 1000,
       "cases_under_memcheck": 150}
ASSUMPTIONS = ["bounded by 2^31 results per correlator (16 GB), which the sandbox cannot hold",
               "objects are made by calling their classes; __new__ without __init__ is pybind11's",
               "PyPy itself is not instrumented, only the project's extension modules are"]

SPECIAL = [0.0, -0.0, 1.0, -1.0, NAN, INF, -INF, 1e300, -1e300, 5e-324, .5, 2.0, 1e17]
STEP = ["naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "getFractionWeights",
        "getFractionSquaredWeights", "getGaussianWeights", "findCorrelation"]
KINDS = (["ds"] * 4 + ["corr"] * 6 + ["it"] * 8 + ["step"] * 22 + ["pipeline"] * 6 + ["add"] * 8 +
         ["clean"] * 4 + ["clear"] * 3 + ["set"] * 8 + ["grid"] * 5 + ["calc"] * 7 + ["pyfind"] * 3 +
         ["read"] * 8 + ["wf"] * 2 + ["del"] * 3 + ["file"] * 2 + ["k"] * 2 + ["auto"] * 4 + ["badtype"])


def op(rng):
    k = rng.choice(KINDS)
    a, b = rng.randrange(8), rng.randrange(8)
    if k == "ds":
        r = rng.random()
        M = rng.choice([1, 1, 2, 3, 4, 7, 16, 40])
        n = rng.choice([0, 0, 1, 2, 3, 7])
        if r < .03:
            M, n = 1, 300
        t = gen.times(rng, M)[0]
        x = [[rng.choice(SPECIAL) if rng.random() < .05 else rng.gauss(0, 1) for _ in range(M)]
             for _ in range(max(1, n))]
        e = None if rng.random() < .6 else [list(q) for q in x]
        if rng.random() < .25:
            # something does not fit
            w = rng.choice([x, x, [t]] + ([e] if e else []))
            q = rng.choice(w)
            d = rng.choice([-1, 1, 5, -M, M])
            if d < 0:
                del q[d:]
            else:
                q += [1.0] * d
            if rng.random() < .3 and len(w) > 1:
                del w[-1]
        if rng.random() < .08 and t:
            t[rng.randrange(len(t))] = rng.choice(SPECIAL)
        return [k, t, x if n else x[0], (e if n else e[0]) if e else None]
    if k == "it":
        return [k, rng.choice(SPECIAL + [rng.uniform(-9, 9)] * 12),
                rng.choice([0, 1, 1, 2, 3, 3, 7, 7, 100, .5, 1.7, -1, -.5, NAN, INF, 1e10])
                if rng.random() < .4 else None, a]
    if k == "step":
        return [k, rng.choice(STEP), a, b]
    if k == "pipeline":
        return [k, a, rng.choice(SPECIAL + [rng.uniform(-9, 9)] * 12), rng.randrange(2),
                rng.randrange(3), b]
    if k == "add":
        return [k, a, b, rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 41, 100, 1000, -1, -7, -2 ** 31,
                                     2 ** 31 - 1, 2 ** 30, 2 ** 40] + [rng.randrange(64)] * 8)]
    if k == "clean":
        return [k, a, rng.choice([0, 1, 2, 5, 17, 100, 1000, -1, -5, -2 ** 31, 2 ** 33])]
    if k == "set":
        return [k, a, rng.choice(["min_lag", "max_lag", "lag_resolution", "alpha"]),
                rng.choice(SPECIAL + [rng.uniform(-9, 9)] * 8)]
    if k == "grid":
        lo = rng.uniform(-20, 5)
        return [k, a, lo, lo + rng.uniform(0, 40), rng.choice([.1, .25, 1.0, 3.0, .02])]
    if k in ("calc", "pyfind"):
        return [k, a, rng.choice(["natural", "fast"]),
                rng.choice(["gaussian", "fractional", "fractional_squared"])]
    if k == "wf":
        return [k, a, rng.choice(["fractionWeightFunction", "fractionSquaredWeightFunction",
                                  "gaussianWeightFunction"]),
                rng.choice(SPECIAL)]
    if k == "del":
        return [k, rng.choice(["ds", "corr", "it"]), a, rng.random() < .15]
    if k == "file":
        r = rng.random()
        if r < .4:
            s = "".join(rng.choice("0123456789.,- \t\n#eE+\r\0axn") for _ in range(rng.randint(0, 300)))
        elif r < .8:
            s = "".join("%d,%r%s\n" % (q, rng.gauss(0, 1), rng.choice([",.1", "", ",", ",x"]))
                        for q in range(rng.randint(0, 30)))
        else:
            s = rng.choice(["#", "\n", "", "1", "1,2", "1,2,3", "#\n#\n", ",", "\0", "1 2\n3",
                            "9" * 5000, " " * 3000 + "1,2", "1,2," * 500])
        return [k, s]
    if k == "k":
        return [k, a, rng.choice(SPECIAL)]
    if k == "auto":
        return [k, a, rng.choice(["natural", "fast"]),
                rng.choice(["gaussian", "fractional", "fractional_squared"]),
                rng.choice([None, 0.0, -3.0, 1.0]), rng.choice([None, 2.0, 30.0]),
                rng.choice([.5, .1, 1.0, 7.0, 0.0, NAN])]
    return [k, a, b]


def generate(rng, i, tier):
    ops = [["ds", [0.0, 1.0, 2.5, 3.0], [[1.0, -1.0, 2.0, 0.0], [0.0, 3.0, 1.0, 1.0]], None],
           ["ds"] + op_ds(rng), ["corr", 0, 0], ["corr", 1, 0], ["it", 1.0, None, 0]]
    ops += [op(rng) for _ in range(rng.randint(8, 60))]
    return dict(ops=ops)


def op_ds(rng):
    M = rng.choice([1, 2, 5, 12])
    return [gen.times(rng, M)[0], [rng.gauss(0, 1) for _ in range(M)], None]


def bounded(corr):
    """True if running over the lags ends soon, whatever the settings mean."""
    lo, hi, res = corr.min_lag, corr.max_lag, corr.lag_resolution
    if not lo <= hi or not res > 0 or hi == INF or lo == -INF or not lo + res > lo:
        return True
    if (hi - lo) / res > 3000:
        corr.lag_resolution = (hi - lo) / 50
        return corr.lag_resolution > 0 and lo + corr.lag_resolution > lo and \
            corr.lag_resolution < INF
    return True


class Program(object):
    def __init__(self, m):
        self.m = m
        self.ds, self.corr, self.its = [], [], []
        self.room = {}
        # under memcheck, decide something on every number that comes out
        self.touch = memcheck.touch if m.variant == "memcheck" else None

    def use(self, *results):
        if self.touch:
            self.touch(results)

    def get(self, pool, i):
        return pool[i % len(pool)] if pool else None

    def step(self, o):
        m = self.m
        k = o[0]
        if k == "ds":
            self.ds.append(DataStructure(o[1], o[2]) if o[3] is None else
                           DataStructure(o[1], o[2], o[3]))
            return
        if k == "file":
            s = Scratch()
            try:
                m.count("files")
                self.ds.append(DataStructure(s.write("f", o[1].encode())))
            finally:
                s.close()
            return
        if k == "corr":
            d = self.get(self.ds, o[1])
            if d is not None:
                self.corr.append((Correlator(d), d.M_datapoints, d.N_datasets))
            return
        if k == "del":
            pool = dict(ds=self.ds, corr=self.corr, it=self.its)[o[1]]
            if len(pool) > 1:
                del pool[o[2] % len(pool)]
            if o[3]:
                import gc
                gc.collect()
            return
        c = self.get(self.corr, o[3] if k == "it" else o[1] if k != "step" else o[2])
        if k == "it":
            n = o[2] if o[2] is not None else (c[2] if c else 1)
            self.its.append([CorrelationIterator(o[1], n), None])
            return
        if k == "k":
            it = self.get(self.its, o[1])
            it[0].k = o[2]
            return
        if c is None:
            return
        corr = c[0]
        key = id(corr)
        if k == "step":
            it = self.get(self.its, o[3])
            if it[1] is not None and it[1] != (c[1], c[2]):
                m.count("foreign_iterators")
            it[1] = it[1] or (c[1], c[2])
            getattr(corr, o[1])(it[0])
            self.use(it[0].correlation, it[0].shifted_timeseries, it[0].selection_indices,
                     it[0].delta_t, it[0].weights, it[0].k)
        elif k == "pipeline":
            it = CorrelationIterator(o[2], c[2])
            getattr(corr, STEP[o[3]])(it)
            corr.deltaT(it)
            getattr(corr, STEP[3 + o[4]])(it)
            corr.findCorrelation(it)
            corr.addCorrelationData(it, o[5])
            self.its.append([it, (c[1], c[2])])
        elif k == "add":
            it = self.get(self.its, o[2])
            if 2 * c[1] < o[3] < 10000:
                m.count("beyond_default_room")
            corr.addCorrelationData(it[0], o[3])
            self.use(corr.correlations())
        elif k == "clean":
            corr.cleanCorrelationData(o[2])
            self.use(corr.correlations(), corr.lag_timeseries())
            self.room[key] = 1
        elif k == "clear":
            corr.clearCorrelation()
            self.room[key] = 1
        elif k == "set":
            setattr(corr, o[2], o[3])
        elif k == "grid":
            corr.min_lag, corr.max_lag, corr.lag_resolution = o[2], o[3], o[4]
        elif k in ("calc", "pyfind"):
            if not bounded(corr):
                return
            m.count("estimates")
            m.count("shrunk_and_reused", self.room.pop(key, 0))
            if k == "calc":
                corr.calculateStandardCorrelation()
            else:
                SACF.find_correlation(corr, o[2], o[3])
            lags = corr.lag_timeseries()
            if len(lags) > 2 * c[1] + 2:
                m.count("beyond_default_room")
            cc = corr.correlations()
            self.use(lags, cc)
            if len(cc) != c[2] or any(len(x) != len(lags) for x in cc):
                m.violate("the results are not datasets x lags", lags=len(lags),
                          shape=[len(x) for x in cc])
        elif k == "read":
            self.use(corr.lag_timeseries(), corr.correlations(), corr.values(),
                     corr.normalised_timeseries(), corr.min_lag, corr.max_lag, corr.lag_resolution,
                     corr.alpha, corr.N_datasets, corr.M_datapoints)
            d = self.get(self.ds, o[2])
            self.use(d.data(), d.errors(), d.timeseries(), d.normalised_data(), d.mean_data,
                     d.median_time, d.max_time, d.N_datasets, d.M_datapoints)
        elif k == "wf":
            self.use(getattr(corr, o[2])(o[3]))
        elif k == "auto":
            S = SACF.__new__(SACF)
            S.data = self.get(self.ds, o[1])
            lo = o[4] if o[4] is not None else -S.data.normalised_timeseries()[-1]
            hi = o[5] if o[5] is not None else S.data.normalised_timeseries()[-1]
            if lo <= hi and o[6] > 0 and not (hi - lo) / o[6] < 2000:
                return
            m.count("estimates")
            self.use(*S.autocorrelation(selection_function=o[2], weight_function=o[3], min_lag=o[4],
                                        max_lag=o[5], lag_resolution=o[6]))
        else:
            for bad in (None, 3, "x", [], self.get(self.ds, 0)):
                for f in (corr.deltaT, corr.naturalSelectionFunctionIdx, Correlator,
                          corr.fastSelectionFunctionIdx, corr.getFractionWeights,
                          corr.getFractionSquaredWeights, corr.getGaussianWeights,
                          corr.fractionWeightFunction, corr.fractionSquaredWeightFunction,
                          corr.gaussianWeightFunction,
                          lambda x: corr.addCorrelationData(x, 0), corr.findCorrelation,
                          DataStructure, lambda x: DataStructure(x, x), lambda x: DataStructure(x, x, x),
                          lambda x: DataStructure([1.0], [1.0], x), lambda x: CorrelationIterator(x, x)):
                    try:
                        f(bad)
                    except Exception:
                        pass
                if bad != 3:
                    for f in (corr.cleanCorrelationData, lambda x: setattr(corr, "alpha", x),
                              lambda x: setattr(corr, "max_lag", x),
                              lambda x: setattr(self.get(self.its, 0)[0], "k", x)):
                        try:
                            f(bad)
                            m.violate("no number was accepted as one", given=bad)
                        except TypeError:
                            pass


def setup(m):
    m.ref = SACF([0.0, 1.0, 2.5, 4.0], [[1.0, -2.0, 3.0, 0.5], [0.0, 1.0, 0.0, 4.0]])
    m.want = m.ref.autocorrelation()


def run(case, m):
    p = Program(m)
    good = refused = 0
    for o in case["ops"]:
        try:
            p.step(o)
            good += 1
        except Exception as e:
            refused += 1
            m.count("refused:" + type(e).__name__)
    m.count("calls_returned", good)
    m.count("calls_refused", refused)
    if not same_result(m.ref.autocorrelation(), m.want):
        m.violate("another series' results changed")
        return
    if good >= 5 and refused:
        m.seen(case["ops"])
