import gc

from common import *

RULE = ("random series with 1 to 40 datasets (some constant, some with missing values, some repeated) "
        "and random settings and functions, against each dataset alone and against reordered, reduced, "
        "extended and partly changed sets; non-trivial: at least 2 different datasets and 2 lags; "
        "distinct by times, values, settings, functions")
NCASES = {"quick": 16000, "thorough": 250000}
MIN = {"datasets_compared": 30000, "reordered": 1500, "reduced": 1500, "extended": 1500,
       "neighbours_changed": 1500}


def fixed(tier):
    for sel, w in (("natural", "fractional"), ("fast", "gaussian")):
        for M, n in ((3, 300), (2, 1000), (9000, 8), (4, 70), (1, 300), (400, 170)):
            for op in ("reordered", "extended"):
                if M < 5000 or op == "reordered":
                    yield dict(gen.large(M, "irr", gen.SHORT, n), sel=sel, w=w, op=op, seed=5,
                               perm=[(a * 7 + 3) % n if n % 7 else (a + 3) % n for a in range(n)])
    # more values than single precision can count
    yield dict(op="huge", M=1100001, n=16)


def huge(case, m):
    """Row j holds zeros, and a few numbers of its own around its middle and at its end."""
    M, n = case["M"], case["n"]
    at = [M // 2 + 7, M // 2 + 8, M // 2 + 9, M - 3, M - 2, M - 1]

    def row(j):
        v = [0.0] * M
        for q, i in enumerate(at):
            v[i] = (j * 7 + q * 5) % 11 - 5.0 + q
        return v
    gc.collect()
    c = Correlator(SACF([float(i) for i in range(M)], [row(j) for j in range(n)]).data)
    gc.collect()
    c.min_lag, c.max_lag, c.lag_resolution = 0.0, 1.0, 1.0
    c.calculateStandardCorrelation()
    got = c.correlations()
    for j in range(n):
        x = [(j * 7 + q * 5) % 11 - 5.0 + q for q in range(6)]
        mean = math.fsum(x) / M
        N = math.fsum(y * y for y in x) - mean * mean * M
        one = math.fsum([x[0] * x[1], x[1] * x[2], x[3] * x[4], x[4] * x[5]])
        # sum over i of (x[i] - mean) * (x[i+1] - mean)
        one -= mean * (2 * mean * M - x[5]) - mean * mean * (M - 1)
        if len(got[j]) != 2 or abs(got[j][0] - 1) > 1e-7 or \
                abs(got[j][1] - one / N) > 1e-7:
            m.violate("a dataset of many is not its own", dataset=j, got=got[j], want=[1.0, one / N],
                      given=x)
            return
    m.count("values_in_huge_set", M * n)
    m.seen("huge", M, n)


def generate(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8] + ([17, 40] if i % 7 == 0 else []))
    c = gen.case(rng, tier, budget=12000, big=i % 40 == 0, nsets=n)
    vs = c["v"]
    for j in range(n):
        r = rng.random()
        if r < .12:
            vs[j] = [x if rng.random() > .2 else NAN for x in vs[j]]
        elif r < .13:
            vs[j][rng.randrange(len(vs[j]))] = rng.choice([INF, -INF])
        elif r < .18:
            vs[j] = [3.25] * len(c["t"])
        elif r < .25:
            vs[j] = [x * 1e6 for x in vs[j]]
        elif r < .3 and j:
            vs[j] = list(vs[rng.randrange(j)])
    c["sel"] = rng.choice(["natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    c["op"] = rng.choice(["reordered", "reduced", "extended", "neighbours_changed"])
    c["perm"] = rng.sample(range(n), n)
    c["seed"] = rng.randrange(1 << 30)
    return c


def estimate(case, v, cont="list"):
    S = build(dict(case, v=v, cont=cont))
    return S.autocorrelation(selection_function=case["sel"], weight_function=case["w"], **case["p"])


def same_set(a, b, v):
    """The same dataset's correlations from two calls."""
    if same_list(a, b):
        return True
    s = model.Series(v)
    if not s.ok:
        # dividing by a scatter that is nothing but rounding: only the shape counts
        return len(a) == len(b)
    if len(a) != len(b):
        return False
    tol = 1e-11 + 8 * s.dN / s.N
    return all(same(x, y) or abs(x - y) <= tol * max(1.0, abs(x)) for x, y in zip(a, b))


def run(case, m):
    import random
    if case["op"] == "huge":
        return huge(case, m)
    vs = case["v"]
    n = len(vs)
    lags, corr = estimate(case, vs, case["cont"])
    if n == 1:
        if len(corr) != len(lags) or any(not isinstance(x, float) for x in corr):
            m.violate("a single row does not give a flat list of one value per lag", lags=len(lags),
                      corr=corr[:3])
            return
        corr = [corr]
    if len(corr) != n or any(not isinstance(c, list) for c in corr) or \
            any(len(c) != len(lags) for c in corr):
        m.violate("shape of the result is not datasets x lags", lags=len(lags), datasets=n,
                  shape=[len(c) if isinstance(c, list) else c for c in corr][:40])
        return
    for j in range(n):
        l1, c1 = estimate(case, vs[j])
        if not same_list(l1, lags) or not same_set(c1, corr[j], vs[j]):
            m.violate("a dataset among others differs from the dataset alone", dataset=j, datasets=n,
                      alone=c1[:8], among=corr[j][:8], lags=lags[:8], params=case["p"],
                      sel=case["sel"], w=case["w"])
            return
        m.count("datasets_compared")
    rng = random.Random(case["seed"])
    op = case["op"]
    if op == "reordered":
        keep = [(a, b) for b, a in enumerate(case["perm"])]     # old position -> new position
        new = [vs[a] for a in case["perm"]]
    elif op == "reduced":
        kept = sorted(case["perm"][:max(1, n // 2)])
        keep = [(a, b) for b, a in enumerate(kept)]
        new = [vs[a] for a in kept]
    elif op == "extended":
        at = rng.randint(0, n)
        extra = [[rng.gauss(0, 100) for _ in case["t"]] for _ in range(rng.randint(1, 3))]
        new = vs[:at] + extra + vs[at:]
        keep = [(a, a if a < at else a + len(extra)) for a in range(n)]
    else:
        victim = rng.randrange(n)
        new = [list(v) for v in vs]
        new[victim] = [NAN if rng.random() < .3 else rng.gauss(7, 3) for _ in case["t"]]
        keep = [(a, a) for a in range(n) if a != victim]
    l2, c2 = estimate(case, new)
    c2 = as_rows(c2, len(new))
    m.count(op)
    if not same_list(l2, lags) or len(c2) != len(new):
        m.violate("lags or shape depend on the other datasets", op=op, lags=lags[:8], other=l2[:8])
        return
    for a, b in keep:
        if not same_set(corr[a], c2[b], vs[a]):
            m.violate("a dataset's correlations depend on the others", op=op, dataset=a,
                      before=corr[a][:8], after=c2[b][:8], params=case["p"], sel=case["sel"],
                      w=case["w"])
            return
    if n > 1 and len(lags) > 1:
        m.seen(case["t"], vs, sorted(case["p"].items()), case["sel"], case["w"])
