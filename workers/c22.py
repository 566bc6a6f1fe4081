from common import *

RULE = ("random series and lag settings, every selection and weight function; for up to 12 lags of each "
        "returned grid the same lag is asked for alone (min_lag = max_lag), first and last in other "
        "grids, in a finer one, at the end of a long one and amid lags of other sizes and signs; "
        "non-trivial: a lag's value was compared across at least two grids with more than one lag in one of them; "
        "distinct by series, settings and functions")
NCASES = {"quick": 12000, "thorough": 200000}
MIN = {"alone": 50000, "as_first": 20000, "as_last": 15000, "negative_fast": 5000,
       "not_zero": 50000, "beyond_the_series": 800, "long_prefixes": 30}

SELS = ["natural", "natural", "fast"]
WS = ["fractional", "fractional", "gaussian", "fractional_squared"]


def fixed(tier):
    for M, n, kind, p in ((4000, 0, "irr", dict(gen.SHORT, min_lag=-.5)), (3, 200, "irr", gen.SHORT),
                          (3, 0, "irr", dict(min_lag=-1.0, max_lag=1.0, lag_resolution=2.0 / 30011)),
                          (5, 2, "gaps", dict(min_lag=-.5, max_lag=1.2, lag_resolution=2.0 / 9001))):
        for sel in ("natural", "fast"):
            for w in ("fractional", "gaussian"):
                yield dict(gen.large(M, kind, p, n), sel=sel, w=w, x=5)


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=4000, big=False)
    if rng.random() < .06:
        # coarse lags that nearly meet zero, or begin next to it
        T = c["t"][-1] - c["t"][0] or 1.0
        res = T / rng.choice([2.0, 4.0, 7.0])
        near = rng.choice([-1, 1, 1]) * res * 10.0 ** rng.uniform(-15, -3)
        c["p"] = dict(c["p"], min_lag=rng.choice([0, 0, -res, -2 * res]) + near, max_lag=1.1 * T,
                      lag_resolution=res)
    c["sel"], c["w"], c["x"] = rng.choice(SELS), rng.choice(WS), rng.randrange(1 << 30)
    return c


def differ(a, b, scale):
    return not (same(a, b) or abs(a - b) <= 1e-10 * scale)


def run(case, m):
    import random
    rng = random.Random(case["x"])
    S = build(case)
    tn, lo, hi, res, alpha = effective(case)
    n = case["nsets"] or 1
    f = dict(selection_function=case["sel"], weight_function=case["w"])
    if "alpha" in case["p"]:
        f["alpha"] = case["p"]["alpha"]
    lags, corr = S.autocorrelation(**dict(case["p"], **f))
    corr = as_rows(corr, n)
    if not lags:
        m.count("empty")
        return
    if not res:
        res = tn[-1] or 1.0
    scale = max(1.0, max(abs(x) for r in corr for x in r if x == x) if any(
        x == x for r in corr for x in r) else 1.0)
    T = tn[-1]

    def ask(lo2, hi2, res2, what, i, at):
        l, c = S.autocorrelation(min_lag=lo2, max_lag=hi2, lag_resolution=res2, **f)
        c = as_rows(c, n)
        if not l or l[at] != lags[i]:
            # rounding of the grid: it does not contain this very lag
            m.count("skipped:other-lag")
            return True
        for j in range(n):
            if differ(c[j][at], corr[j][i], scale):
                m.violate("a lag's correlation depends on the other lags", lag=lags[i], dataset=j,
                          among=(lags[0], lags[-1], len(lags), corr[j][i]),
                          other=(what, l[0], l[-1], len(l), c[j][at]), sel=case["sel"], w=case["w"],
                          M=len(tn))
                return False
        m.count(what)
        return True
    compared = 0
    for i in pick(case["x"], len(lags), 12 if len(tn) < 1000 else 4):
        k = lags[i]
        if not ask(k, k, res, "alone", i, 0):
            return
        m.count("not_zero", k != 0)
        m.count("beyond_the_series", k > T)
        m.count("negative_fast", k < 0 and case["sel"] == "fast")
        compared += 1
        step = rng.choice([res, res / 2, T / 7 or 1.0])
        if rng.random() < .6 and k + step > k:
            if not ask(k, k + 3.5 * step, step, "as_first", i, 0):
                return
        if rng.random() < .6:
            # a grid that ends with this lag
            q = rng.choice([1, 2, 5])
            if not ask(k - q * step, k, step, "as_last", i, -1):
                return
    # a shorter range gives the beginning of a longer one
    cut = rng.randrange(len(lags))
    l, c = S.autocorrelation(min_lag=lo, max_lag=lags[cut], lag_resolution=res,
                             **f) if "lag_resolution" in case["p"] or len(tn) > 1 else (lags, corr)
    c = as_rows(c, n)
    k = min(len(l), cut)
    for j in range(n):
        for i in range(k):
            if l[i] != lags[i]:
                break
            if differ(c[j][i], corr[j][i], scale):
                m.violate("a longer range changes the correlations of its beginning", lag=l[i],
                          dataset=j, got=c[j][i], want=corr[j][i], sel=case["sel"], w=case["w"])
                return
    m.count("long_prefixes", k > 300)
    if compared and len(lags) > 1:
        m.seen(case["t"], case["v"], sorted(case["p"].items()), case["sel"], case["w"])
