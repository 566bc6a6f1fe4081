from common import *

RULE = ("random evenly sampled series with exact (dyadic) times, random alpha, lags m*spacing up to "
        "beyond the series, each selection and weight function, against the classical biased ACF; "
        "non-trivial: a series of at least 2 samples with scatter; distinct by values and settings")
NCASES = {"quick": 24000, "thorough": 400000}
MIN = {"acf_values_compared": 200000, "beyond_series": 2000,
       "on_finer_grids": 20000}


def fixed(tier):
    for sel in ("natural", "fast"):
        for w in ("fractional", "gaussian", "fractional_squared"):
            for M, step, n in ((4097, 1.0, 0), (20000, .25, 2), (70000, 2.0, 0)):
                c = gen.large(M, "int", {}, n)
                yield dict(c, t=[a * step for a in range(M)], step=step, sel=sel, w=w,
                           p=dict(min_lag=0.0, max_lag=M * step,
                                  lag_resolution=step * (M // 7)))

def generate(rng, i, tier):
    M = gen.size(rng, tier, True)
    if rng.random() < .7:
        step = 2.0 ** (rng.randint(-8, 6) if rng.random() < .9 else
                       rng.choice([-540, -800, 520, 900, rng.randint(-900, 1000)]))
    else:
        step = float(rng.randint(1, 30))
    o = step * rng.randint(-40, 40)
    t = [o + a * step for a in range(M)]
    nsets = rng.choice([0, 0, 0, 1, 3])
    vs = [gen.values(rng, t)[0] for _ in range(max(1, nsets))]
    mult = rng.choice([1, 1, 1, 2, 3]) if M > 4 else 1
    p = {"min_lag": rng.choice([0.0, 0.0, step, 2 * step, -step * rng.randint(1, 3)])}
    if rng.random() < .5:
        p["max_lag"] = step * (M - 1 + rng.choice([0, 1, 3, -1, 10]))
    if M > 400:
        p["max_lag"] = p["min_lag"] + step * 60
        p["min_lag"] += 0.0
    if rng.random() < .15:
        # a finer grid that has the multiples of the spacing in it
        f = rng.choice([2, 2, 4, 8])
        p["lag_resolution"] = step / f
        if M > 200:
            p["max_lag"] = p["min_lag"] + step * 30
    elif rng.random() < .1:
        # one lag alone, whatever the resolution
        p["min_lag"] = p["max_lag"] = step * rng.randint(0, M + 1)
        p["lag_resolution"] = step * rng.choice([1e-3, .3, 1.7, 1e3, 1e9])
    elif mult > 1:
        p["lag_resolution"] = step * mult
    elif M == 1:
        p["lag_resolution"] = step
    if rng.random() < .5:
        p["alpha"] = rng.choice([1e-3, .1, 1.0, 7.0, 1e6])
    return dict(t=t, v=vs if nsets else vs[0], p=p, cont=rng.choice(gen.CONTAINERS), nsets=nsets,
                step=step, sel=rng.choice(["natural", "natural", "fast"]),
                w=rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"]))


def run(case, m):
    S = build(case)
    lags, corr = S.autocorrelation(selection_function=case["sel"], weight_function=case["w"],
                                   **case["p"])
    M = len(case["t"])
    n = case["nsets"] or 1
    if not effective(case)[4] > 0:
        m.count("skipped:alpha-not-positive")
        return
    for j, (v, c) in enumerate(zip(rows(case), as_rows(corr, n))):
        s = model.Series(v)
        if not s.ok:
            m.count("skipped:degenerate-series")
            continue
        x = s.x
        for k, got in zip(lags, c):
            if k < 0:
                continue
            q = k / case["step"]
            lag = int(q)
            if lag != q and case["p"].get("lag_resolution", case["step"]) < case["step"]:
                continue    # between multiples of the spacing
            if lag != q:
                m.violate("lag is not a multiple of the spacing", lag=k, step=case["step"])
                return
            m.count("on_finer_grids", case["p"].get("lag_resolution", case["step"]) < case["step"])
            want = math.fsum(x[i] * x[i + lag] for i in range(M - lag)) / s.N if lag < M else 0.0
            mag = math.fsum(abs(a) for a in x) * s.dx * 2 + 8 * (M + 8) * model.U * s.N
            tol = 4 * (mag / s.N + s.dN / s.N) + 1e-14
            if not abs(got - want) <= tol or abs(got) > 1 + tol:
                m.violate("differs from the classical ACF", lag=k, steps=lag, got=got, want=want,
                          tolerance=tol, M=M, dataset=j, sel=case["sel"], w=case["w"],
                          params=case["p"])
                return
            m.count("acf_values_compared")
            if lag >= M:
                m.count("beyond_series")
        if M > 1:
            m.seen(case["t"], v, sorted(case["p"].items()), case["sel"], case["w"])
