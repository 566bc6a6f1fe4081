from common import *
import memcheck

RULE = ("the same random calls (estimates with every function, single steps, read-outs of fresh and used "
        "objects, files) in five builds (gcc at the product's flags, -O0 with stack memory filled with a "
        "pattern, -O2 with zeros, clang -O2, and without the sandbox's forced standard headers) and, in the "
        "product build, with three fillings of heap memory, and some under valgrind's memcheck; all numbers compared pairwise with the first "
        "run; non-trivial: at least 10 numbers compared; distinct by case")
DRIVER = "builds"
NCASES = {"quick": 4000, "thorough": 60000}
MIN = {"numbers_compared": 500000, "cases_compared": 20000, "configurations": 7,
       "files_without_forced_headers": 1,
       "cases_under_memcheck": 200}
ASSUMPTIONS = ["x86-64, IEEE doubles, no -ffast-math; two compilers and the listed flags",
               "agreement to 1e-9; numbers of series without resolvable scatter are left out"]


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=1500, big=False)
    if rng.random() < .15:
        v = rows(c)[0]
        for _ in range(rng.randint(1, 3)):
            v[rng.randrange(len(v))] = NAN
        c["cont"] = "list"
    c["sel"] = rng.choice(["natural", "natural", "fast"])
    c["w"] = rng.choice(["fractional", "gaussian", "fractional_squared"])
    c["do"] = rng.choice(["estimate", "estimate", "default", "steps", "reads", "file", "fresh", "rerun"])
    c["k"] = rng.choice([0.0, rng.uniform(-2, 9), c["t"][-1] - c["t"][0]])
    return c


def flat(x, out):
    if isinstance(x, (list, tuple)):
        out.append(float(len(x)))
        for a in x:
            flat(a, out)
    else:
        out.append(float(x))
    return out


def run(case, m):
    ok = [model.Series(v).ok for v in rows(case)]

    def keep(corr):
        return [c for c, good in zip(as_rows(corr, len(ok)), ok) if good]
    kw = dict(case["p"], selection_function=case["sel"], weight_function=case["w"])
    S = build(case)
    d = S.data
    do = case["do"]
    small = len(case["t"]) > 1
    if do == "default":
        p = dict(case["p"])
        r = S.autocorrelation(**p)
        out = [r[0], keep(r[1])]
    elif do == "estimate":
        r = S.autocorrelation(**kw)
        out = [r[0], keep(r[1])]
    elif do == "steps":
        c = Correlator(d)
        it = CorrelationIterator(case["k"], c.N_datasets)
        out = [it.k, it.correlation, it.weights, it.delta_t, it.selection_indices]
        c.naturalSelectionFunctionIdx(it)
        out.append(it.selection_indices)
        c.deltaT(it)
        out.append(it.delta_t)
        c.getGaussianWeights(it)
        out.append(it.weights)
        c.findCorrelation(it)
        out.append(keep(it.correlation if len(ok) > 1 else it.correlation[0]))
        out += [c.fractionWeightFunction(.3), c.gaussianWeightFunction(.4),
                c.fractionSquaredWeightFunction(.6)] if c.alpha > 0 else []
    elif do == "reads":
        out = [d.timeseries(), d.data(), d.errors(), d.normalised_timeseries(), d.normalised_data(),
               d.mean_data, d.median_time, d.max_time, d.N_datasets, d.M_datapoints]
    elif do == "file":
        s = Scratch()
        text = "".join("%r%s%r%s\n" % (a, " ,"[len(ok) % 2], b, ",0.5" if len(ok) < 3 else "")
                       for a, b in zip(case["t"], rows(case)[0]) if b == b) + "1e3 7\n"
        f = DataStructure(s.write("f", text.encode()))
        s.close()
        out = [f.timeseries(), f.data(), f.errors(), f.mean_data, f.median_time, f.max_time]
    elif do == "fresh":
        c = Correlator(d)
        out = [c.lag_timeseries(), c.correlations(), c.min_lag, c.max_lag, c.alpha, c.M_datapoints,
               c.N_datasets, c.normalised_timeseries(), c.values()]
        if small:
            out.append(c.lag_resolution)
        it = CorrelationIterator(1.5, c.N_datasets)
        c.addCorrelationData(it, 4)
        c.addCorrelationData(it, 2)
        out += [c.lag_timeseries(), c.correlations()]
        c.cleanCorrelationData(11)
        out += [c.lag_timeseries(), c.correlations()]
    else:
        r = S.autocorrelation(return_correlator=True, **case["p"])
        c = r[2]
        c.max_lag = (c.max_lag + c.min_lag) / 2
        c.calculateStandardCorrelation()
        cc = c.correlations()
        out = [c.lag_timeseries(), keep(cc if len(cc) > 1 else cc[0])]
    out = flat(out, [])
    if m.variant == "memcheck":
        memcheck.touch(out, 4000)
    m.record(str(m.index), out)
