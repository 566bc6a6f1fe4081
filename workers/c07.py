from common import *

RULE = ("pairs of estimates of a random series and a transformed copy: values a*v+b (powers of two, "
        "exact or not), times shifted by an exactly representable constant, times, lags and alpha "
        "scaled by a power of two or, where exact, an integer; every selection and weight function; "
        "non-trivial: a series of at least 2 samples with scatter; distinct by series, settings, "
        "transformation")
NCASES = {"quick": 24000, "thorough": 400000}
MIN = {"pairs:value": 2000, "pairs:shift": 1500, "pairs:scale": 2000, "farthest_shifts": 800, "correlations_compared": 200000}

EXACT = ["int", "dyadic", "irrint", "irrdy", "jd", "neg"]


def last_bit(x):
    """The largest power of two of which x is a multiple."""
    m, e = math.frexp(abs(x))
    n = int(m * 2 ** 53)
    return math.ldexp(n & -n, e - 53)


def generate(rng, i, tier):
    op = rng.choice(["value", "shift", "scale"])
    exact = op == "shift" or rng.random() < .5
    c = gen.case(rng, tier, budget=16000, tkind=rng.choice(EXACT) if exact else None)
    c["op"] = op
    c["sel"] = rng.choice(["natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    p = c["p"]
    if exact:
        # settings on a dyadic grid, so that no lag is rounded; the range is not enlarged and the
        # step not reduced by more than the generator's own slack
        for k in ("min_lag", "max_lag"):
            if k in p:
                p[k] = round(p[k] * 1024) / 1024.0
        if "lag_resolution" in p and p["lag_resolution"] < 1e300:
            p["lag_resolution"] = max(1, math.ceil(p["lag_resolution"] * 1024)) / 1024.0
    if op == "value":
        c["a"] = rng.choice([2.0, -1.0, .5, -4.0, 3.0, 0.1, -7.3, rng.uniform(.01, 100), 1e6, 1e-6])
        c["b"] = rng.choice([0.0, 1.0, -1000.0, rng.uniform(-10, 10), 1e5])
    elif op == "shift":
        c["b"] = rng.choice([1.0, -1.0, 0.5, 1024.0, -4096.0, 1.0 / 64, 2457000.5,
                             float(rng.randint(-10 ** 6, 10 ** 6)), -c["t"][0], 2.0 ** 30])
        if rng.random() < .4:
            # as far from the origin as the times remain exact
            unit = min([last_bit(x) for x in c["t"] if x] or [1.0])
            top = unit * 2.0 ** 53
            c["b"] = rng.choice([1, 1, -1]) * (top / rng.choice([2, 2, 4, 16]))
    else:
        c["a"] = (float(rng.choice([3, 5, 7, 24, 60])) if exact and rng.random() < .4
                  else 2.0 ** rng.choice([-60, -20, -7, -1, 1, 2, 10, 30, 50]))
    return c


def transformed(case):
    d = dict(case)
    op = case["op"]
    if op == "value":
        f = lambda v: [case["a"] * x + case["b"] for x in v]
        d["v"] = [f(v) for v in case["v"]] if case["nsets"] else f(case["v"])
    elif op == "shift":
        d["t"] = [x + case["b"] for x in case["t"]]
        if [x - case["b"] for x in d["t"]] != case["t"] or \
                model.elapsed(d["t"]) != model.elapsed(case["t"]):
            return None
    else:
        a = case["a"]
        d["t"] = [x * a for x in case["t"]]
        d["p"] = {k: (x * a if x < 1e300 else x) for k, x in case["p"].items()}
        if case["tk"] == "far":
            # the other unit has to be within the range of numbers, too
            if not max(abs(x) for x in d["t"]) < 2.0 ** 1018 or \
                    any(x and not 1e-280 < abs(x) < 2.0 ** 1020 for x in d["p"].values()) or \
                    any(y - x < 1e-280 for x, y in zip(d["t"], d["t"][1:])) or \
                    any(x >= 1e300 and x < INF for k, x in case["p"].items()):
                return None
    return d


def slack(s, extra=0.0):
    """How far rounding can move a correlation of this series."""
    r = math.sqrt(s.N)      # in these units the normalisation is 1
    dx = (s.dx + extra) / r
    top = max(abs(x) for x in s.x) / r
    one = math.fsum(abs(x) for x in s.x) / r
    mag = top * one
    return 4 * (dx * (one + s.M * top) + (s.M + 8) * 4 * model.U * mag
                + 2 * dx * one * mag + s.M * dx * dx) + 1e-13


def run(case, m):
    d = transformed(case)
    if d is None:
        m.count("skipped:not-expressible")
        return
    kw = dict(selection_function=case["sel"], weight_function=case["w"])
    l1, c1 = build(case).autocorrelation(**dict(kw, **case["p"]))
    l2, c2 = build(d).autocorrelation(**dict(kw, **d["p"]))
    m.count("pairs:" + case["op"])
    if case["op"] == "shift" and abs(case["b"]) * 16 >= 2.0 ** 53 * min([last_bit(x) for x in case["t"] if x] or [1.0]):
        m.count("farthest_shifts")
    f = case["a"] if case["op"] == "scale" else 1.0
    exact_scale = math.frexp(f)[0] == .5 or case["tk"] in EXACT
    want = [k * f for k in l1]
    if len(l1) != len(l2):
        m.violate("another number of lags after the transformation", op=case["op"], a=case.get("a"),
                  b=case.get("b"), before=len(l1), after=len(l2), params=case["p"])
        return
    for i, (a, b) in enumerate(zip(want, l2)):
        if not abs(a - b) <= 1e-9 * abs(f) * max(abs(l1[0]), abs(l1[-1])) + 0.0:
            m.violate("other lags after the transformation", op=case["op"], a=case.get("a"),
                      b=case.get("b"), at=i, want=a, got=b, params=case["p"])
            return
    if not effective(case)[4] > 0:
        m.count("skipped:alpha-not-positive")
        return
    # an integer scale is exact only if every lag is on the dyadic grid
    if case["op"] == "scale" and want != l2:
        m.count("skipped:lags-rounded")
        return
    n = case["nsets"] or 1
    rel = 0.0
    if case["op"] == "scale" and math.frexp(f)[0] != .5:
        # (d/alpha) of the scaled call may differ by an ulp, as alpha's scaling is rounded
        rel = 1e-13
        tn, _, _, _, alpha = effective(case)
        if any(model.Fraction(x) * int(f) != model.Fraction(x * f) for x in tn + l1):
            m.count("skipped:not-exact")
            return
    for j, (va, vb, a, b) in enumerate(zip(rows(case), rows(d), as_rows(c1, n), as_rows(c2, n))):
        s1, s2 = model.Series(va), model.Series(vb)
        if not (s1.ok and s2.ok):
            m.count("skipped:degenerate-series")
            continue
        tol = 1e-12
        if case["op"] == "value":
            # a*v+b is itself rounded
            e = 2 * model.U * (abs(case["a"]) * max(abs(x) for x in va) +
                               max(abs(x) for x in vb))
            tol = slack(s1) + slack(s2, e) + 1e-12
            if tol > 1e-3:
                m.count("skipped:ill-conditioned")
                continue
        else:
            tol = slack(s1) * 1e-2 + 1e-12 + rel
        m.peak("largest_tolerance", tol)
        for k, x, y in zip(l1, a, b):
            if not abs(x - y) <= tol:
                m.violate("correlation changed by the transformation", op=case["op"],
                          a=case.get("a"), b=case.get("b"), lag=k, before=x, after=y, tolerance=tol,
                          sel=case["sel"], w=case["w"], params=case["p"], dataset=j)
                return
        m.count("correlations_compared", len(l1))
        if len(va) > 1 and l1:
            m.seen(case["t"], va, sorted(case["p"].items()), case["op"], case.get("a"),
                   case.get("b"), case["sel"], case["w"])
