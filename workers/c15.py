from common import *

RULE = ("random and special lag settings (zero, negative, tiny, NaN, infinite, not advancing at once or "
        "later; empty, reversed, one-point and huge ranges) on random series, both implementations, "
        "against the outcome the property prescribes; non-trivial: a refusal, an empty range or a "
        "range within 4 steps of one; distinct by settings, functions and series")
NCASES = {"quick": 60000, "thorough": 400000}
MIN = {"refused": 6000, "empty": 2500, "returned": 4000, "late_refusals": 200, "python_path": 5000}

SPECIAL = [NAN, INF, -INF, 0.0, -0.0, 1.0, -1.0, 1e300, -1e300, 5e-324, 1e-300, 2.5, 1e17, -1e17]


def generate(rng, i, tier):
    M = rng.choice([1, 1, 2, 3, 5, 12])
    t, _ = gen.times(rng, M, rng.choice(["int", "step", "irr", "irrdy", "jd"]))
    T = t[-1] - t[0]
    p = {}
    kind = rng.choice(["special", "special", "resolution", "resolution", "late", "normal", "stuck"])
    if kind == "special":
        for k in ("min_lag", "max_lag", "lag_resolution"):
            if rng.random() < .6:
                p[k] = rng.choice(SPECIAL)
    elif kind == "resolution":
        p["min_lag"] = rng.choice([0.0, -T, -1.0, 1.0, 3.5, -2.5e10])
        p["max_lag"] = p["min_lag"] + rng.choice([0.0, 1.0, 10.0, T, -1.0])
        p["lag_resolution"] = rng.choice([0.0, -0.0, -1.0, -1e-300, NAN, -INF, INF, -T, 1e308, 2.0,
                                          abs(p["min_lag"]) * 2.0 ** -55])
    elif kind == "late":
        # the step is lost only once the lag has grown
        e = rng.randint(40, 60)
        b = 2.0 ** e
        u = b * 2.0 ** -53          # half the spacing of numbers above b, its spacing below
        n = rng.randint(1, 40)
        p = dict(min_lag=b - n * u, max_lag=b + rng.choice([2, 10, 100]) * u, lag_resolution=u)
    elif kind == "stuck":
        b = rng.choice([-1.0, 1.0]) * 10.0 ** rng.randint(3, 200)
        p = dict(min_lag=b, max_lag=b + abs(b), lag_resolution=abs(b) * 2.0 ** -rng.randint(55, 80))
    else:
        p["min_lag"] = rng.uniform(-T, T)
        p["max_lag"] = p["min_lag"] + rng.choice([-1e-9, 0.0, 1e-9, T, 1.0])
        p["lag_resolution"] = rng.choice([1.0, T or 1.0, INF, .25])
    return dict(t=t, v=[rng.gauss(0, 1) for _ in t], p=p, nsets=0, cont="list", kind=kind,
                sel=rng.choice(["natural", "natural", "fast"]),
                w=rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"]))


LIMIT = 20000


def fixed(tier):
    """Few samples and very many lags; exact steps."""
    for n in (70000, 140000, 1100000, 2200000):
        for sel, w in (("natural", "fractional"), ("fast", "fractional"), ("natural", "gaussian")):
            if w != "fractional" or sel == "fast":
                if n > 200000:
                    continue
            yield dict(t=[0.0, 1.0], v=[1.0, -2.0], p=dict(min_lag=0.0, max_lag=n * 2.0 ** -16, lag_resolution=2.0 ** -16),
                       nsets=0, cont="list", kind="many", sel=sel, w=w)


def expected(lo, hi, res, limit=LIMIT):
    """('empty'|'refused'|'returns'|None, smallest and largest number of lags)."""
    if not lo <= hi:
        return "empty", 0, 0
    if not res > 0 or hi == INF or lo == -INF:
        return "refused", 0, 0
    # walks the grid with the same additions any implementation of 'min_lag + n*res' makes; whether
    # a step is lost is clear only well away from half an ulp, or exactly on it as in kind 'late'
    n = 0
    k = lo
    while k <= hi:
        n += 1
        if n > limit:
            return None, 0, 0
        if not k + res > k:
            return "refused", n, n
        if res < 2 * model.ulp(k) and not (res == model.ulp(k) or res * 2 == model.ulp(k)):
            return None, 0, 0
        k += res
    # each addition may be rounded by half an ulp
    return "returns", 1, (hi - lo) / res * (1 + model.ulp(max(abs(lo), abs(hi))) / res) + 2.001


def run(case, m):
    _, lo, hi, res, _ = effective(case)
    if res is None:
        res = 1.7976931348623157e308
    want, a, b = expected(lo, hi, res, 3000000 if case["kind"] == "many" else LIMIT)
    if want is None:
        m.count("skipped:too-many-lags")
        return
    S = build(case)
    m.count("python_path", not (case["sel"] == "natural" and case["w"] == "fractional"))
    try:
        lags, corr = S.autocorrelation(selection_function=case["sel"], weight_function=case["w"],
                                       **case["p"])
        got = "returns" if lags else "empty"
    except ValueError as e:
        got, lags = "refused", []
    except (MemoryError, OverflowError) as e:
        got, lags = repr(e), []
    m.count("returned" if want == "returns" else want)
    m.count("late_refusals", want == "refused" and a > 1)
    if got != want:
        m.violate("wrong outcome of lag settings", want=want, got=got, min_lag=lo, max_lag=hi,
                  lag_resolution=res, lags=len(lags), sel=case["sel"], w=case["w"])
        return
    if got == "returns" and not len(lags) <= b:
        m.violate("more lags than the range has room for", lags=len(lags), bound=b, min_lag=lo,
                  max_lag=hi, lag_resolution=res)
        return
    if got == "returns" and not (len(corr) == len(lags)):
        m.violate("not one correlation per lag", lags=len(lags), correlations=len(corr))
        return
    m.peak("most_lags", len(lags))
    # the series is still usable
    if m.counters.get("returned", 0) % 7 == 0:
        S.autocorrelation(min_lag=0.0, max_lag=0.0)
    if want != "returns" or len(lags) < 5:
        m.seen(case["t"], repr(sorted(case["p"].items())), case["sel"], case["w"])
