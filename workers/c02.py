from common import *

RULE = ("as C01, with weight function gaussian or fractional_squared against the model, and natural "
        "selection with fractional weights through the general implementation against the compiled "
        "one; non-trivial: some compared lag value depended on a distance above 0; distinct by times, "
        "values, settings and weight function")
NCASES = {"quick": 12000, "thorough": 160000}
MIN = {"lag_values_compared": 200000, "path_values_compared": 20000, "calls_with_distances": 500}


def fixed(tier):
    for w in ("gaussian", "fractional_squared", "general"):
        for M, kind, n in [(4097, "irr", 0), (20000, "gaps", 2), (70000, "jitter", 0)]:
            yield dict(gen.large(M, kind, gen.SHORT, n), w=w)
        for M, n in ((2, 35000), (3, 70000)):
            yield dict(gen.large(M, "irr", dict(lag_resolution=2.0 / n)), w=w)

def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=16000 if i % 50 else 120000)
    c["w"] = rng.choice(["gaussian", "fractional_squared", "fractional_squared", "gaussian",
                         "general"])
    return c


def run(case, m):
    S = build(case)
    p = case["p"]
    if case["w"] == "general":
        lags, corr = S.autocorrelation(**p)
        c = Correlator(S.data)
        S.set_up_correlation(c, **p)
        S.find_correlation(c)
        l2, r2 = c.lag_timeseries(), c.correlations()
        n = case["nsets"] or 1
        if len(lags) != len(l2):
            m.violate("the two implementations return different lags", fast=len(lags), general=len(l2),
                      params=p)
            return
        ref = as_rows(corr, n)
        for j in range(n):
            if len(r2[j]) != len(ref[j]):
                m.violate("the two implementations return different numbers of correlations", params=p)
                return
            for a, b, x, y in zip(lags, l2, ref[j], r2[j]):
                if abs(a - b) > 1e-12 * max(1, abs(a)):
                    m.violate("the two implementations return different lags", a=a, b=b, params=p)
                    return
                # same arithmetic, up to the order of operations
                if not (same(x, y) or abs(x - y) <= 1e-9 * (1 + abs(x))):
                    m.violate("the two implementations disagree", lag=a, compiled=x, general=y, params=p)
                    return
            m.count("path_values_compared", len(lags))
        if len(lags) > 1:
            m.seen(case["t"], case["v"], sorted(p.items()), "general")
        return
    lags, corr = S.autocorrelation(weight_function=case["w"], **p)
    n = compare_estimates(m, case, lags, corr, weight=case["w"], key=m.index or 1)
    m.count("lags", len(lags))
    m.count("weight:" + case["w"])
    tn = effective(case)[0]
    irregular = case["tk"] not in ("int", "dyadic", "step") or "lag_resolution" in p
    if n and irregular and len(tn) > 2:
        m.count("calls_with_distances")
        m.seen(case["t"], case["v"], sorted(p.items()), case["w"])
