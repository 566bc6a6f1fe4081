from common import *

RULE = ("random series (offsets up to 1e13 times the scatter, scales 1e-9 to 1e12) and settings whose "
        "range holds lag 0, all selection and weight functions; non-trivial: zero lag of a series with "
        "scatter was compared with 1; distinct by times, values, settings, functions")
NCASES = {"quick": 24000, "thorough": 400000}
MIN = {"zero_lags_checked": 10000, "large_offset": 1000, "unusual_alpha": 500}


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=4000)
    p = c["p"]
    T = c["t"][-1] - c["t"][0] or 1.0
    r = rng.random()
    p.pop("min_lag", None)
    p.pop("max_lag", None)
    if r < .5:
        p["min_lag"] = 0.0
        p["max_lag"] = rng.choice([0.0, T / 3, T])
    elif r < .8:
        p["min_lag"] = -rng.choice([T, T / 2, T / 7, 2.3 * T])
        p["max_lag"] = rng.choice([T, T / 2, 2 * T])
    else:
        p["min_lag"], p["max_lag"] = -T, T
    span = p["max_lag"] - p["min_lag"]
    p["lag_resolution"] = max(p.get("lag_resolution", span / 20), span / 60) or 1.0
    if p["lag_resolution"] > p["max_lag"]:
        p["lag_resolution"] = p["max_lag"] or T     # so that the grid gets from below 0 to above
    if rng.random() < .4:
        off = rng.choice([1e4, 1e6, -1e8, 16777217.0, 1e10, 12345678.9])
        sc = rng.choice([1.0, 1.0, 1e-3, 10.0]) * (abs(off) / 1e7 if abs(off) > 1e8 else 1.0)
        mk = lambda v: [off + sc * rng.gauss(0, 1) for _ in v]
        c["v"] = [mk(v) for v in c["v"]] if c["nsets"] else mk(c["v"])
        c["vk"] = "bigoffset"
    if rng.random() < .06:
        # alpha has no say in the weight of distance 0
        p["alpha"] = rng.choice([-1.0, -T, INF, -INF, 5e-324, -5e-324, -1.7e308, -1e-200])
    c["sel"] = rng.choice(["natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    return c


def run(case, m):
    S = build(case)
    lags, corr = S.autocorrelation(selection_function=case["sel"], weight_function=case["w"],
                                   **case["p"])
    if 0.0 not in lags:
        m.count("no_zero_lag")
        return
    i = lags.index(0.0)
    n = case["nsets"] or 1
    for j, (v, c) in enumerate(zip(rows(case), as_rows(corr, n))):
        s = model.Series(v)
        if not s.ok or effective(case)[4] == 0 or effective(case)[4] != effective(case)[4]:
            m.count("skipped:degenerate-series")
            continue
        m.count("zero_lags_checked")
        a = effective(case)[4]
        m.count("unusual_alpha", a < 0 or a == INF or a < 1e-300)
        if case["vk"] in ("bigoffset", "offset"):
            m.count("large_offset")
        tol = 8 * s.dN / s.N + 1e-13
        if not abs(c[i] - 1.0) <= tol:
            m.violate("zero-lag correlation is not 1", got=c[i], tolerance=tol, dataset=j,
                      sel=case["sel"], w=case["w"], params=case["p"])
            return
        m.seen(case["t"], v, sorted(case["p"].items()), case["sel"], case["w"])
