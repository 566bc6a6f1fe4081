from common import *

RULE = ("every intermediate result of the single steps at random lags (on samples, half-way between "
        "samples, beyond either end, random) for random series and alphas, and the single weight "
        "functions on rising distances; non-trivial: at least one sample contributed; distinct by "
        "series, lag, alpha, weight function")
NCASES = {"quick": 30000, "thorough": 500000}
MIN = {"indices_checked": 300000, "distances_checked": 300000, "weights_checked": 300000,
       "correlations_checked": 40000, "weight_function_values": 200000, "exact_ties": 2000,
       "results_stored": 20000}

STEPS = {"fractional": "getFractionWeights", "fractional_squared": "getFractionSquaredWeights",
         "gaussian": "getGaussianWeights"}
SINGLE = {"fractional": "fractionWeightFunction",
          "fractional_squared": "fractionSquaredWeightFunction",
          "gaussian": "gaussianWeightFunction"}


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=500, big=False, nsets=rng.choice([0, 0, 1, 3]))
    t = c["t"]
    M = len(t)
    T = t[-1] - t[0] or 1.0
    ks = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        a, b = rng.randrange(M), rng.randrange(M)
        if r < .3:
            k = t[b] - t[a]
        elif r < .55 and M > 1:
            q = rng.randrange(1, M)
            k = (t[q] + t[q - 1]) / 2 - t[a]
        elif r < .65:
            k = rng.choice([0.0, T, -T, T * 1.01, -T * 2, T * 3, 1e-9])
        else:
            k = rng.uniform(-T, T)
        ks.append(k)
    order = rng.choice(["next", "any", "any"])
    store = []
    for q in range(rng.choice([0, 0, 3, 8])):
        store.append(["add", rng.randrange(6), q if order == "next" else rng.randrange(12)]
                     if rng.random() < .85 else ["clean", 0, rng.randrange(14)])
    return dict(t=t, v=c["v"], nsets=c["nsets"], cont=c["cont"], p={}, ks=ks, store=store,
                alpha=rng.choice([None, None, T / 2, .1, 3.0, 1e3, 10.0 ** rng.uniform(-280, 280)]),
                w=rng.choice(sorted(STEPS)), reuse=rng.random() < .5)


def stored(case, m, corr, done, n):
    """Results stored at any positions, in any order, are what the correlator reports there."""
    corr.clearCorrelation()
    kept = {}
    size = 0
    for op, a, b in case["store"]:
        if op == "add":
            it, k, c = done[a % len(done)]
            corr.addCorrelationData(it, b)
            kept[b] = (k, c)
            size = max(size, b + 1)
            m.count("results_stored")
        else:
            corr.cleanCorrelationData(b)
            kept = {q: x for q, x in kept.items() if q < b}
            size = b
        lags, cs = corr.lag_timeseries(), corr.correlations()
        exact = op == "clean"
        if not (len(lags) == size if exact else len(lags) >= size) or len(cs) != n or \
                any(len(x) != len(lags) for x in cs):
            m.violate("stored results make lists of another length", after=(op, a, b),
                      steps=case["store"], lags=len(lags), correlations=[len(x) for x in cs],
                      want=size)
            return False
        for q, (k, c) in kept.items():
            if not same(lags[q], k) or not same_list([x[q] for x in cs], c):
                m.violate("a stored result is not reported where it was stored", position=q,
                          after=(op, a, b), steps=case["store"], lag=lags[q], want_lag=k,
                          got=[x[q] for x in cs], want=c)
                return False
    return True


def run(case, m):
    S = build(case)
    corr = Correlator(S.data)
    tn = model.elapsed(case["t"])
    n = case["nsets"] or 1
    alpha = case["alpha"]
    if alpha is None:
        alpha = model.median_elapsed(tn)
    else:
        corr.alpha = alpha
    if not alpha > 0:
        m.count("skipped:alpha-not-positive")
        return
    W = model.WEIGHTS[case["w"]]
    used = False
    done = []
    for k in case["ks"]:
        it = CorrelationIterator(k, corr.N_datasets)
        if it.k != k or it.correlation != [0.0] * n or len(it.selection_indices) or len(it.weights):
            m.violate("a new iterator is not empty", k=k, got=(it.k, it.correlation))
            return
        if not case["reuse"]:
            corr = Correlator(S.data)
            corr.alpha = alpha
        corr.naturalSelectionFunctionIdx(it)
        sel = it.selection_indices
        pairs, amb = model.near(tn, k)
        must = sum(1 for p in pairs if not p[2])
        if not must <= len(sel) <= len(pairs):
            m.violate("wrong number of contributing samples", k=k, got=len(sel), want=len(pairs),
                      M=len(tn), t=case["t"][:20])
            return
        for pos, j in enumerate(sel):
            i, cand, drop, s = pairs[pos]
            if j not in cand:
                m.violate("not the sample nearest in time", k=k, sample=i, got=j, want=cand,
                          shifted=s, t=tn[max(0, cand[0] - 3):cand[0] + 3])
                return
            m.count("exact_ties", len(cand) == 1 and cand[0] > 0 and
                    s - tn[cand[0] - 1] == tn[cand[0]] - s)
        m.count("indices_checked", len(sel))
        corr.deltaT(it)
        d = it.delta_t
        if len(d) != len(sel):
            m.violate("not one distance per sample", k=k, got=len(d), want=len(sel))
            return
        big = max(abs(k), tn[-1])
        for pos, x in enumerate(d):
            want = abs(tn[sel[pos]] - pairs[pos][3])
            if not (x >= 0 and abs(x - want) <= 8 * model.U * big):
                m.violate("wrong distance to the shifted time", k=k, sample=pos, got=x, want=want)
                return
        m.count("distances_checked", len(d))
        getattr(corr, STEPS[case["w"]])(it)
        w = it.weights
        if len(w) != len(sel):
            m.violate("not one weight per sample", k=k, got=len(w), want=len(sel))
            return
        for pos, x in enumerate(w):
            if not (0 <= x <= 1 and abs(x - W(d[pos], alpha)) <= 1e-14):
                m.violate("wrong weight", k=k, distance=d[pos], alpha=alpha, got=x,
                          want=W(d[pos], alpha), w=case["w"])
                return
        m.count("weights_checked", len(w))
        corr.findCorrelation(it)
        c = it.correlation
        done.append((it, k, c))
        full = S.autocorrelation(min_lag=k, max_lag=k, lag_resolution=max(1.0, abs(k)), alpha=alpha,
                                 weight_function=case["w"])
        fc = as_rows(full[1], n)
        if len(c) != n or full[0] != [k]:
            m.violate("wrong shape of a single lag's result", k=k, correlation=c, lags=full[0])
            return
        for j, v in enumerate(rows(case)):
            sr = model.Series(v)
            if not sr.ok:
                m.count("skipped:degenerate-series")
                continue
            m.count("correlations_checked")
            if not abs(c[j] - fc[j][0]) <= 1e-11 * max(1.0, abs(c[j])):
                m.violate("the steps' correlation differs from the estimate's", k=k, dataset=j,
                          steps=c[j], estimate=fc[j][0], w=case["w"])
                return
        if sel:
            used = True
            m.seen(case["t"], k, alpha, case["w"], case["v"])
    if not stored(case, m, corr, done, n):
        return
    f = getattr(corr, SINGLE[case["w"]])
    ds = sorted([0.0] + [alpha * 10.0 ** (q / 3.0 - 4) for q in range(24)])
    prev = None
    for x in ds:
        y = f(x)
        want = W(x, alpha)
        if (x == 0.0 and y != 1.0) or not (0 <= y <= 1) or not abs(y - want) <= 1e-14 or \
                (prev is not None and y > prev + 1e-15):
            m.violate("wrong value of a weight function", distance=x, alpha=alpha, got=y, want=want,
                      previous=prev, w=case["w"])
            return
        prev = y
        m.count("weight_function_values")
