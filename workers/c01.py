from common import *

RULE = ("random series (12 kinds of sampling, 11 of values, 0-17 datasets, 4 containers) with random "
        "lag settings; non-trivial: at least one lag value with a well-conditioned normalisation was "
        "compared; distinct by times, values and settings")
NCASES = {"quick": 40000, "thorough": 600000}
MIN = {"lag_values_compared": 500000}


def fixed(tier):
    out = [gen.large(M, kind, gen.SHORT, n) for M, kind, n in
           [(4097, "irr", 0), (10000, "jitter", 0), (20000, "gaps", 2), (40000, "irrint", 0),
            (70000, "irr", 0), (33000, "step", 3), (300, "irr", 300)]]
    out += [gen.large(M, "irr", dict(min_lag=0.0, max_lag=0.5, lag_resolution=0.5), n)
            for M, n in ((2, 40000), (3, 70000))]
    for M, n in ((2, 35000), (3, 70000), (40, 6000)):
        out.append(gen.large(M, "irr", dict(lag_resolution=2.0 / n)))
    if tier == "thorough":
        out += [gen.large(M, kind, gen.SHORT, seed=8) for M in (150000, 300000, 1100000)
                for kind in ("irr", "int")]
        out.append(gen.large(5, "irr", dict(lag_resolution=2e-6)))
    return out

def generate(rng, i, tier):
    return gen.case(rng, tier, budget=40000 if i % 50 else 400000)


def run(case, m):
    S = build(case)
    lags, corr = S.autocorrelation(**case["p"])
    n = compare_estimates(m, case, lags, corr, key=m.index or 1)
    m.count("lags", len(lags))
    m.peak("max_lags_in_a_call", len(lags))
    m.peak("max_points", len(case["t"]))
    m.count("kind:" + case["tk"])
    if n:
        m.seen(case["t"], case["v"], sorted(case["p"].items()))
