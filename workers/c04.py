from common import *

RULE = ("random series with random lag settings (ranges below, above, across and beyond the series, "
        "empty, single, up to 20000 lags); every returned grid is checked element by element; "
        "non-trivial: more than one lag or an empty range; distinct by effective settings and sampling")
NCASES = {"quick": 20000, "thorough": 300000}
MIN = {"lags_checked": 500000, "grids": 5000, "empty_ranges": 100, "zero_inserted": 200,
       "positive_only": 100}


def fixed(tier):
    base = dict(t=[0.0, 1.0, 2.0, 3.0, 4.0], v=[0.0, 1.0, 0.0, -1.0, 0.5], cont="list", tk="int",
                vk="x", nsets=0, sel="natural", w="fractional")
    for p in [dict(min_lag=1.0), dict(min_lag=1.0, max_lag=1.0), dict(min_lag=-1.0, max_lag=-1.0),
              dict(min_lag=3.0, max_lag=2.0), dict(lag_resolution=100.0), dict(max_lag=100.0),
              dict(min_lag=-100.0), dict(lag_resolution=0.01), dict(min_lag=-1.0, max_lag=0.2,
              lag_resolution=1.5), dict(min_lag=-.3, max_lag=.3, lag_resolution=.1),
              dict(min_lag=0.0, max_lag=0.0), dict(min_lag=5.0, max_lag=9.0),
              dict(min_lag=-9.0, max_lag=-5.0), dict(min_lag=-1.0, lag_resolution=5.0),
              dict(min_lag=1.0, max_lag=-1.0), dict(min_lag=-2.0, max_lag=0.0)]:
        for sel in ("natural", "fast"):
            for w in ("fractional", "gaussian", "fractional_squared"):
                yield dict(base, p=p, sel=sel, w=w)
    for sel, w in (("natural", "fractional"), ("natural", "gaussian"), ("fast", "fractional")):
        for M, n in ((2, 35000), (3, 70000), (4, 140000)):
            yield dict(gen.large(M, "irr", dict(lag_resolution=2.0 / n)), sel=sel, w=w)
        yield dict(gen.large(3, "int", dict(lag_resolution=1e-5)), sel=sel, w=w)


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=20000 if i % 40 else 200000, big=False,
                 nsets=rng.choice([0, 0, 0, 2]),
                 M=rng.choice([None, None, None, 1, 2, 3, 4, 5]))
    c["sel"] = rng.choice(["natural", "natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "fractional", "gaussian", "fractional_squared"])
    return c


def run(case, m):
    S = build(case)
    lags, corr = S.autocorrelation(selection_function=case["sel"], weight_function=case["w"],
                                   **case["p"])
    tn, lo, hi, res, alpha = effective(case)
    m.count("grids")
    m.count("lags_checked", len(lags))
    m.peak("max_lags_in_a_call", len(lags))
    bad = model.check_grid(lags, lo, hi, res)
    if bad:
        m.violate(bad, params=case["p"], min_lag=lo, max_lag=hi, resolution=res, sel=case["sel"],
                  w=case["w"], lags=lags[:12])
        return
    n = case["nsets"] or 1
    if any(len(c) != len(lags) for c in as_rows(corr, n)):
        m.violate("not one correlation per lag", params=case["p"])
    if hi < lo:
        m.count("empty_ranges")
    elif lo > 0:
        m.count("positive_only")
    if res and len(lags) > 1 and lags[0] < 0 < lags[-1]:
        i = lags.index(0.0)
        if i + 1 < len(lags) and lags[i + 1] - lags[i - 1] < 1.5 * res:
            m.count("zero_inserted")
    if len(lags) != 1:
        m.seen(lo, hi, res, len(tn))
