from common import *

RULE = ("random series and settings as C01 with the fast selection and each weight function; "
        "non-negative lags are compared with the model, and on regular dyadic grids with the natural "
        "selection; non-trivial: a non-negative lag was compared")
NCASES = {"quick": 12000, "thorough": 160000}
MIN = {"lag_values_compared": 100000, "compared_with_natural": 5000}


def fixed(tier):
    for w in ("fractional", "gaussian", "fractional_squared"):
        for M, kind, n in [(4097, "irr", 0), (20000, "gaps", 2), (70000, "jitter", 0)]:
            yield dict(gen.large(M, kind, gen.SHORT, n), w=w, reg=False)
        yield dict(gen.large(3, "irr", dict(min_lag=0.0, lag_resolution=1 / 70000.0)), w=w, reg=False)
        yield dict(gen.large(20000, "int", dict(min_lag=0.0, lag_resolution=.25)), w=w, reg=True)

def generate(rng, i, tier):
    reg = i % 5 == 0
    c = gen.case(rng, tier, budget=16000 if i % 50 else 120000,
                 tkind=rng.choice(["int", "dyadic"]) if reg else None)
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    if reg:
        c["p"] = {"min_lag": 0.0}
        if rng.random() < .5:
            c["p"]["max_lag"] = (len(c["t"]) + 2) * (c["t"][1] - c["t"][0]) if len(c["t"]) > 1 else 1.0
        if rng.random() < .5:
            c["p"]["alpha"] = rng.uniform(.1, 3)
    c["reg"] = reg
    return c


def run(case, m):
    S = build(case)
    lags, corr = S.autocorrelation(selection_function="fast", weight_function=case["w"], **case["p"])
    n = compare_estimates(m, case, lags, corr, weight=case["w"], selection="fast",
                          lag_filter=lambda k: k >= 0, key=m.index or 1)
    m.count("lags", len(lags))
    if case["reg"] and len(case["t"]) > 1:
        l2, c2 = S.autocorrelation(selection_function="natural", weight_function=case["w"], **case["p"])
        nsets = case["nsets"] or 1
        for v, a, b in zip(rows(case), as_rows(corr, nsets), as_rows(c2, nsets)):
            if not model.Series(v).ok:
                continue
            for k, x, y in zip(lags, a, b):
                if not abs(x - y) <= 1e-9 * (1 + abs(y)):
                    m.violate("fast and natural selection differ on a regular grid", lag=k, fast=x,
                              natural=y)
                    return
                m.count("compared_with_natural")
    if n:
        m.seen(case["t"], case["v"], sorted(case["p"].items()), case["w"])
