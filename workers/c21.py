from common import *

RULE = ("random series, subsets of settings (as floats or integers, positional or by name) and functions, "
        "with and without return_correlator; every attribute of the returned correlator; non-trivial: "
        "at least one setting given or default and one lag returned; distinct by series, settings, "
        "functions")
NCASES = {"quick": 30000, "thorough": 400000}
MIN = {"correlators_checked": 25000, "given_settings": 20000, "default_settings": 20000,
       "several_datasets": 5000, "empty_results": 300, "values_missing": 2000}


def fixed(tier):
    for sel, w in (("natural", "fractional"), ("natural", "gaussian"), ("fast", "fractional")):
        for M, kind, n, p in ((20000, "irr", 0, gen.SHORT), (3, "irr", 300, gen.SHORT),
                              (3, "irr", 2, dict(lag_resolution=2 / 35000.))):
            yield dict(gen.large(M, kind, p, n), sel=sel, w=w, pos=False, types=["float"] * 4)
    for M in (40000, 70000, 140000):
        # one lag, and the default resolution of very many samples
        yield dict(gen.large(M, "irr", dict(min_lag=0.0, max_lag=0.0)), sel="natural", w="fractional",
                   pos=False, types=["float"] * 4)


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=3000, big=i % 50 == 0)
    c["sel"] = rng.choice(["natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    c["pos"] = rng.random() < .3
    if rng.random() < .1:
        # values and whole datasets missing
        some = rng.choice([.05, .5, 1.0])
        v = c["v"] if c["nsets"] else [c["v"]]
        v = [[NAN if rng.random() < some else x for x in r] for r in v]
        c["v"] = v if c["nsets"] else v[0]
        c["missing"] = True
    if rng.random() < .06:
        # reported as given, whatever the numbers then are
        c["p"] = dict(c["p"], alpha=rng.choice([-1.5, 0.0, -0.0, INF, -INF, NAN, 5e-324, 1.7e308, -1e-300]))
    c["types"] = [rng.choice(["float", "float", "numpy", "int", "numpy32"]) for _ in range(4)]
    return c


def typed(p, types):
    """The settings as other types that hold the same numbers."""
    out = {}
    for (k, x), ty in zip(sorted(p.items()), types):
        if ty == "numpy":
            x = np.float64(x)
        elif ty == "numpy32" and float(np.float32(x)) == x:
            x = np.float32(x)
        elif ty == "int" and abs(x) < 1e15 and x == int(x) and (x or math.copysign(1, x) > 0):
            x = int(x)
        out[k] = x
    return out


def run(case, m):
    S = build(case)
    tp = typed(case["p"], case["types"])
    kw = dict(tp, selection_function=case["sel"], weight_function=case["w"])
    if case["pos"]:
        p = tp
        args = [p.get("min_lag"), p.get("max_lag"), p.get("lag_resolution"), p.get("alpha"),
                case["sel"], case["w"]]
        plain = S.autocorrelation(*args)
        full = S.autocorrelation(*(args + [True]))
    else:
        plain = S.autocorrelation(**kw)
        full = S.autocorrelation(return_correlator=True, **kw)
    if len(plain) != 2 or len(full) != 3:
        m.violate("wrong number of results", plain=len(plain), full=len(full))
        return
    if not same_result(plain, full):
        m.violate("return_correlator changes the result", plain=(plain[0][:5], plain[1][:3]),
                  full=(full[0][:5], full[1][:3]))
        return
    c = full[2]
    n = case["nsets"] or 1
    if not isinstance(c, Correlator):
        m.violate("not a correlator", got=type(c))
        return
    cr = as_rows(full[1], n)
    if not same_list(c.lag_timeseries(), full[0]) or not same_rows(c.correlations(), cr):
        m.violate("the correlator holds other results than those returned",
                  lags=(c.lag_timeseries()[:5], full[0][:5]),
                  correlations=(c.correlations()[:3], cr[:3]))
        return
    tn, lo, hi, res, alpha = effective(case)
    for name, want in (("min_lag", lo), ("max_lag", hi), ("lag_resolution", res), ("alpha", alpha)):
        got = getattr(c, name)
        if want is None:
            continue        # the resolution of a single sample is not specified
        given = name in case["p"]
        m.count("given_settings" if given else "default_settings")
        tol = 4 * model.U * abs(want) if name == "alpha" and not given else 0.0
        if not (same(got, want) or abs(got - want) <= tol) or \
                given and math.copysign(1, got) != math.copysign(1, want) and want == want:
            m.violate("the correlator reports another setting", name=name, got=got, want=want,
                      given=given, sel=case["sel"], w=case["w"])
            return
    if c.N_datasets != n or c.M_datapoints != len(tn):
        m.violate("wrong numbers of datasets or samples", got=(c.N_datasets, c.M_datapoints),
                  want=(n, len(tn)))
        return
    if not same_list(c.normalised_timeseries(), tn) or not same_rows(c.values(), rows(case)):
        m.violate("the correlator's series is not the one analysed")
        return
    m.count("correlators_checked")
    m.count("several_datasets", n > 1)
    m.count("values_missing", bool(case.get("missing")))
    m.count("empty_results", not full[0])
    if full[0]:
        m.seen(case["t"], case["v"], sorted(case["p"].items()), case["sel"], case["w"])
