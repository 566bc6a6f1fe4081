from common import *

RULE = ("random series with NaN at random, first, last, clustered or repeated positions in some of 1 to "
        "5 datasets; the lags whose correlation is NaN against the pairs of the definition, the other "
        "values against the definition with the mean and scatter of the values present, the complete "
        "datasets against an estimate without the others; non-trivial: both NaN and numbers were "
        "expected; distinct by series, settings, functions")
NCASES = {"quick": 20000, "thorough": 300000}
MIN = {"nan_lags": 100000, "number_lags": 30000, "neighbours_checked": 4000, "fast": 3000,
       "not_natural_fractional": 5000}


def generate(rng, i, tier):
    n = rng.choice([0, 0, 1, 2, 3, 5])
    c = gen.case(rng, tier, budget=8000, big=False, nsets=n)
    vs = [list(v) for v in rows(c)]
    M = len(c["t"])
    for j, v in enumerate(vs):
        if j and rng.random() < .4:
            continue
        r = rng.random()
        if r < .3:
            at = [rng.randrange(M)]
        elif r < .4:
            at = [0]
        elif r < .5:
            at = [M - 1]
        elif r < .6:
            a = rng.randrange(M)
            at = range(a, min(M, a + rng.randint(1, 5)))
        elif r < .7:
            at = [0, M - 1]
        elif r < .8:
            at = range(M // 2)
        else:
            at = [q for q in range(M) if rng.random() < rng.choice([.05, .3])]
        for q in at:
            v[q] = NAN
    c["v"] = vs if n else vs[0]
    if c["cont"] == "mixed":
        c["cont"] = "list"
    c["sel"] = rng.choice(["natural", "natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    if c["sel"] == "fast" and c["p"].get("min_lag", -1.0) < 0 and rng.random() < .8:
        T = c["t"][-1] - c["t"][0]
        c["p"]["min_lag"] = 0.0
        if c["p"].get("max_lag", T) < 0:
            c["p"]["max_lag"] = T
        _, lo, hi, res, _ = effective(c)
        if res is not None and hi > lo and (hi - lo) / res > 400:
            c["p"]["lag_resolution"] = (hi - lo) / 100
    return c


def run(case, m):
    lags, corr = build(case).autocorrelation(selection_function=case["sel"],
                                             weight_function=case["w"], **case["p"])
    tn, lo, hi, res, alpha = effective(case)
    vs = rows(case)
    n = case["nsets"] or 1
    cr = as_rows(corr, n)
    if len(cr) != n or any(len(c) != len(lags) for c in cr):
        m.violate("wrong shape", lags=len(lags), shape=[len(c) for c in cr])
        return
    series = [model.Series(v) for v in vs]
    if not alpha > 0:
        m.count("skipped:alpha-not-positive")
        return
    m.count("fast", case["sel"] == "fast")
    m.count("not_natural_fractional", case["sel"] == "fast" or case["w"] != "fractional")
    filled = []
    for s in series:
        f = model.Series.__new__(model.Series)
        f.__dict__.update(s.__dict__)
        f.x = [0.0 if x != x else x for x in s.x]
        filled.append(f)
    kinds = set()
    for q in pick(m.index or 1, len(lags), max(10, 60000 // (len(tn) * n))):
        k = lags[q]
        if case["sel"] == "fast" and k < 0:
            continue
        pairs, amb = (model.near if case["sel"] == "natural" else model.fast)(tn, k)
        if amb:
            m.count("ambiguous_lags")
            continue
        est, _ = model.estimate(tn, filled, k, alpha, case["w"], case["sel"])
        for j, s in enumerate(series):
            if not s.ok:
                m.count("skipped:degenerate-series")
                continue
            x = s.x
            want = any(x[i] != x[i] or x[c[0]] != x[c[0]] for i, c, _, _ in pairs)
            got = cr[j][q]
            if s.has_nan:
                kinds.add(want)
            if want != (got != got):
                m.violate("a correlation is NaN without a missing value taking part"
                          if not want else "a missing value takes part, and the correlation is "
                          "a number", lag=k, dataset=j, got=got, sel=case["sel"], w=case["w"],
                          missing=[i for i, a in enumerate(vs[j]) if a != a], M=len(tn),
                          params=case["p"])
                return
            if want:
                m.count("nan_lags")
                continue
            m.count("number_lags")
            val, tol = est[j]
            if not abs(got - val) <= tol:
                m.violate("correlation next to missing values differs from the definition", lag=k,
                          dataset=j, got=got, want=val, tolerance=tol, sel=case["sel"], w=case["w"],
                          missing=[i for i, a in enumerate(vs[j]) if a != a], params=case["p"])
                return
    if n > 1:
        whole = [j for j in range(n) if not series[j].has_nan and series[j].ok]
        if whole and len(whole) < n:
            _, alone = build(dict(case, v=[vs[j] for j in whole], cont="list")).autocorrelation(
                selection_function=case["sel"], weight_function=case["w"], **case["p"])
            alone = as_rows(alone, len(whole))
            for a, j in enumerate(whole):
                m.count("neighbours_checked")
                tol = 1e-11 + 8 * series[j].dN / series[j].N
                if not all(same(x, y) or abs(x - y) <= tol * max(1.0, abs(x))
                           for x, y in zip(alone[a], cr[j])):
                    m.violate("a complete dataset is affected by another's missing values", dataset=j,
                              alone=alone[a][:8], among=cr[j][:8], params=case["p"])
                    return
    if len(kinds) == 2:
        m.seen(case["t"], vs, sorted(case["p"].items()), case["sel"], case["w"])
