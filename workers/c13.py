from common import *
import gc
import random

RULE = ("random histories of 6 to 30 operations (some of 300 to 700) on 1 to 3 series and on long-lived correlators: "
        "estimates with changing settings and functions, failing calls, re-runs after smaller and "
        "larger settings, clears, reads; each result against that of fresh objects before and after "
        "the history; non-trivial: at least 2 estimates on one object with different settings; "
        "distinct by series and history")
NCASES = {"quick": 10000, "thorough": 150000}
MIN = {"estimates": 30000, "reruns": 10000, "failed_calls": 5000, "clears": 3000,
       "shrinking_reruns": 1500, "growing_reruns": 1500, "defaults_after_settings": 1500,
       "made_again": 2000,
       "definition_lags": 20000, "defaults_compared": 10000}


def call(rng, t, n):
    p = gen.settings(rng, t, max(3000 // n, 2 * len(t)))
    return dict(p=p, sel=rng.choice(["natural", "natural", "natural", "fast"]),
                w=rng.choice(["fractional", "fractional", "fractional", "gaussian",
                              "fractional_squared"]))


FAILS = ["resolution0", "resolution-", "resolutionnan", "maxinf", "sel", "w", "type", "none",
         "badseries", "badfile", "timestep", "py_resolution0", "unordered"]


def variant(rng, t):
    """Another axis with the same number of samples, ends and median."""
    t, M = list(t), len(t)
    for q in range(1, M - 1):
        if q not in (M // 2, (M - 1) // 2) and rng.random() < .6:
            x = t[q - 1] + (t[q + 1] - t[q - 1]) * rng.choice([.25, .5, .1, .05])
            if t[q - 1] < x < t[q + 1]:
                t[q] = x
    return t


def generate(rng, i, tier):
    series = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        M = rng.choice([1, 2, 3, 5, 9, 14, 30]) if rng.random() < .9 else rng.choice([90, 90, 90, 90, 90, 90, 400])
        t, _ = gen.times(rng, M)
        if series and rng.random() < .4:
            t = series[-1]["t"]     # the same axis, other values
        elif series and rng.random() < .5:
            t = variant(rng, series[-1]["t"])
        n = rng.choice([0, 0, 1, 2, 3])
        v = [gen.values(rng, t)[0] for _ in range(max(1, n))]
        series.append(dict(t=t, v=v if n else v[0], nsets=n, cont="list",
                           e=None if rng.random() < .7 else
                           [[.1] * len(t)] * n if n else [.1] * len(t)))
    calls = []
    for _ in range(rng.randint(2, 5)):
        a = rng.randrange(len(series))
        s = series[a]
        c = call(rng, s["t"], max(1, s["nsets"]))
        c["s"] = a
        calls.append(c)
    ops = []
    long = i % 400 == 7 and all(len(s["t"]) < 20 for s in series)
    for _ in range(rng.randint(300, 700) if long else rng.randint(6, 30)):
        r = rng.random()
        if r < .35:
            ops.append(["estimate", rng.randrange(len(calls))])
        elif r < .65:
            ops.append(["rerun", rng.randrange(len(calls)), rng.random() < .35])
        elif r < .75:
            ops.append(["clear", rng.randrange(len(series))])
        elif r < .87:
            ops.append(["fail", rng.randrange(len(series)), rng.choice(FAILS)])
        elif r < .93:
            ops.append(["read", rng.randrange(len(series))])
        else:
            ops.append(["step", rng.randrange(len(calls)), rng.random()])
    return dict(series=series, calls=calls, ops=ops)


def estimate(S, c):
    return S.autocorrelation(selection_function=c["sel"], weight_function=c["w"], **c["p"])


def state(S):
    d = S.data
    return (d.timeseries(), d.data(), d.errors(), d.mean_data, d.median_time, d.max_time,
            d.normalised_timeseries(), d.normalised_data(), d.N_datasets, d.M_datapoints)


def same_state(a, b):
    return repr(a) == repr(b)


def fail(kind, S, corr, m):
    """Calls that must be refused; whatever they raise is not this property's business."""
    try:
        if kind == "resolution0":
            S.autocorrelation(lag_resolution=0.0)
        elif kind == "resolution-":
            S.autocorrelation(lag_resolution=-1.0, weight_function="gaussian")
        elif kind == "resolutionnan":
            corr.lag_resolution = NAN
            corr.min_lag, corr.max_lag = 0.0, 1.0
            corr.calculateStandardCorrelation()
        elif kind == "py_resolution0":
            corr.lag_resolution = 0.0
            corr.min_lag, corr.max_lag = 0.0, 1.0
            SACF.find_correlation(corr, "fast", "gaussian")
        elif kind == "maxinf":
            corr.max_lag = INF
            corr.lag_resolution = 1e300
            corr.calculateStandardCorrelation()
        elif kind == "sel":
            S.autocorrelation(lag_resolution=1e300, selection_function="nearest")
        elif kind == "w":
            S.autocorrelation(lag_resolution=1e300, weight_function="boxcar")
        elif kind == "type":
            S.autocorrelation(alpha="wide")
        elif kind == "none":
            corr.deltaT(None)
        elif kind == "badseries":
            SACF([1.0, 2.0], [1.0])
        elif kind == "badfile":
            SACF(filename="/nonexistent/file")
        elif kind == "unordered":
            SACF([1.0, 1.0], [1.0, 2.0]).autocorrelation()
        else:
            corr.addCorrelationData(CorrelationIterator(0.0, corr.N_datasets), -1)
    except Exception:
        m.count("failed_calls")


def recycle(case, m):
    """Series made and released again and again, most of them where another one was."""
    rng = random.Random(m.index)
    pool = list(case["series"])
    for s in case["series"]:
        o, f = s["t"][0], rng.choice([.5, 2.0, 8.0])
        # the same sizes and ends, other numbers between them
        pool.append(dict(s, t=[o + (x - o) * f for x in s["t"]]))
        v = rows(s)
        w = [[x * 2 + q for q, x in enumerate(r)] for r in v]
        pool.append(dict(s, v=w if s["nsets"] else w[0]))
    pool = [s for s in pool if all(a < b for a, b in zip(model.elapsed(s["t"]), model.elapsed(s["t"])[1:]))]
    want = {}
    kinds = [("natural", "fractional"), ("natural", "gaussian")]
    for _ in range(14):
        q, z = rng.randrange(len(pool)), rng.randrange(2)
        s = pool[q]
        T = s["t"][-1] - s["t"][0] or 1.0
        S = build(s)
        c = Correlator(S.data)
        got = [state(S), c.min_lag, c.max_lag, c.lag_resolution, c.alpha,
               S.autocorrelation(min_lag=0.0, lag_resolution=T / 7, selection_function=kinds[z][0],
                                 weight_function=kinds[z][1])]
        if len(s["t"]) > 1 and T / c.lag_resolution < 2000:
            got.append(S.autocorrelation(selection_function=kinds[z][0], weight_function=kinds[z][1]))
        del S, c
        gc.collect()
        m.count("made_again")
        if repr(want.setdefault((q, z), got)) != repr(got):
            m.violate("a series made after others were released gives another result", series=s,
                      got=got[1:], want=want[q, z][1:])
            return False
    return True


def run(case, m):
    calls = case["calls"]
    fresh = lambda c: estimate(build(case["series"][c["s"]], case["series"][c["s"]]["e"]), c)
    want = [fresh(c) for c in calls]
    for q, c in enumerate(calls):
        ser = case["series"][c["s"]]
        if not c["p"] or (m.index or 0) % 4 == 0:
            # whatever is remembered for the life of the process shows only against the definition
            m.count("definition_lags", compare_estimates(
                m, dict(ser, p=c["p"]), want[q][0], want[q][1], c["w"], c["sel"],
                (lambda k: k >= 0) if c["sel"] == "fast" else None, work=2000))
            if m.violations:
                return
    S = [build(s, s["e"]) for s in case["series"]]
    for s, ser in zip(S, case["series"]):
        c = Correlator(s.data)
        tn, lo, hi, res, alpha = effective(dict(t=ser["t"]))
        if (c.min_lag, c.max_lag) != (lo, hi) or res is not None and c.lag_resolution != res or \
                not abs(c.alpha - alpha) <= 4 * model.U * abs(alpha):
            m.violate("the default settings are those of another series", series=ser,
                      got=(c.min_lag, c.max_lag, c.lag_resolution, c.alpha), want=(lo, hi, res, alpha))
            return
        m.count("defaults_compared")
    before = [state(s) for s in S]
    corrs = [Correlator(s.data) for s in S]
    last = [None] * len(S)
    seen = set()
    hadset = [False] * len(S)
    for at, op in enumerate(case["ops"]):
        def bad(what, **kw):
            m.violate(what, at=at, op=op, history=case["ops"][:at + 1], **kw)
        if op[0] == "estimate":
            c = calls[op[1]]
            r = estimate(S[c["s"]], c)
            m.count("estimates")
            seen.add(op[1])
            if hadset[c["s"]] and not c["p"]:
                m.count("defaults_after_settings")
            hadset[c["s"]] |= bool(c["p"])
            if not same_result(r, want[op[1]]):
                return bad("an estimate depends on what ran before", call=c, got=(r[0][:6], r[1][:3]),
                           want=(want[op[1]][0][:6], want[op[1]][1][:3]))
        elif op[0] == "rerun":
            c = calls[op[1]]
            corr, ser = corrs[c["s"]], case["series"][c["s"]]
            _, lo, hi, res, alpha = effective(dict(t=ser["t"], p=c["p"]))
            if op[2]:
                corr.clearCorrelation()
                m.count("clears")
            SACF.set_up_correlation(corr, min_lag=lo, max_lag=hi,
                                    lag_resolution=1.7976931348623157e308 if res is None else res,
                                    alpha=alpha)
            if c["sel"] == "natural" and c["w"] == "fractional":
                corr.calculateStandardCorrelation()
            else:
                SACF.find_correlation(corr, c["sel"], c["w"])
            cc = corr.correlations()
            r = (corr.lag_timeseries(), cc if len(cc) > 1 else cc[0])
            m.count("reruns")
            prev = last[c["s"]]
            if prev is not None:
                m.count("shrinking_reruns", len(r[0]) < prev)
                m.count("growing_reruns", len(r[0]) > prev)
            last[c["s"]] = len(r[0])
            if not same_result(r, want[op[1]]):
                return bad("a correlator that is run again differs from a fresh one", call=c,
                           got=(r[0][:6], r[1][:3]),
                           want=(want[op[1]][0][:6], want[op[1]][1][:3]),
                           lags=(len(r[0]), len(want[op[1]][0])))
        elif op[0] == "clear":
            corr = corrs[op[1]]
            corr.clearCorrelation()
            last[op[1]] = 0
            m.count("clears")
            if len(corr.lag_timeseries()) or any(len(x) for x in corr.correlations()) or \
                    len(corr.correlations()) != max(1, case["series"][op[1]]["nsets"]):
                return bad("a cleared correlator still has results", lags=corr.lag_timeseries()[:5],
                           correlations=corr.correlations()[:5])
        elif op[0] == "fail":
            fail(op[2], S[op[1]], corrs[op[1]], m)
            last[op[1]] = None
        elif op[0] == "read":
            if not same_state(state(S[op[1]]), before[op[1]]):
                return bad("a series changed", series=op[1])
        else:
            # single steps on the long-lived correlator leave its results alone
            c = calls[op[1]]
            corr, ser = corrs[c["s"]], case["series"][c["s"]]
            r0 = (corr.lag_timeseries(), corr.correlations())
            k = op[2] * (ser["t"][-1] - ser["t"][0])
            it = CorrelationIterator(k, corr.N_datasets)
            corr.naturalSelectionFunctionIdx(it)
            corr.deltaT(it)
            corr.getFractionWeights(it)
            corr.findCorrelation(it)
            if repr(r0) != repr((corr.lag_timeseries(), corr.correlations())):
                return bad("single steps changed a correlator's results")
    for q in reversed(range(len(calls))):
        if not same_result(fresh(calls[q]), want[q]):
            m.violate("fresh objects give another result after the history", call=calls[q],
                      history=case["ops"])
            return
    for q, s in enumerate(S):
        if not same_state(state(s), before[q]):
            m.violate("a series changed during the history", series=q, history=case["ops"])
            return
    if (m.index or 0) % 40 == 7 and all(len(s["t"]) < 100 for s in case["series"]):
        if not recycle(case, m):
            return
    if len(seen) > 1:
        m.seen(case["series"], case["calls"], case["ops"])
