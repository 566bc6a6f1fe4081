from common import *

RULE = ("random series in lists, tuples, ranges, generators' lists and numpy arrays of 9 types, with 0 to 40 datasets, "
        "with and without errors, NaN and infinite values, any order and magnitude of values, up to thousands of points; "
        "estimates repeated with other errors; non-trivial: at least two distinct values; distinct by "
        "times, values, errors")
NCASES = {"quick": 30000, "thorough": 500000}
MIN = {"values_compared": 500000, "means": 20000, "with_nan": 3000, "with_errors": 8000,
       "error_independence": 4000, "even_median": 5000, "numpy": 5000,
       "with_infinite": 800, "repeated_times": 800}

DTYPES = ["float64", "float32", "int64", "int32", "int16", "uint8", "int8", "uint32", ">f8",
          "float16", "uint64", ">i4"]
LAYOUTS = ["C", "F", "strided", "reversed"]


def fixed(tier):
    for M, n in ((70000, 0), (70001, 1), (9000, 8), (3, 300), (2, 1000), (300, 300), (2, 40000), (3, 70000)):
        for k in (0, 1):
            c = gen.large(M, ("irr", "jd")[k], {}, n, vkind="offset" if k else "gauss")
            e = [[abs(x) % 3.0 for x in v] for v in rows(c)]
            yield dict(t=c["t"], v=c["v"], nsets=n, e=(e if n else e[0]) if k else None,
                       cont=("list", "np")[k])

def generate(rng, i, tier):
    M = gen.size(rng, tier, i % 10 == 0)
    t, _ = gen.times(rng, M)
    n = rng.choice([0, 0, 0, 1, 2, 3, 6] + ([40] if M < 50 else []))
    v = [gen.values(rng, t)[0] for _ in range(max(1, n))]
    for row in v:
        if rng.random() < .25:
            for q in range(M):
                if rng.random() < .2:
                    row[q] = NAN
    if rng.random() < .06:
        row = rng.choice(v)
        for _ in range(rng.randint(1, 3)):
            row[rng.randrange(M)] = rng.choice([INF, INF, -INF])
    e = None
    if rng.random() < .5:
        e = [[abs(rng.gauss(0, 1)) for _ in t] for _ in v]
        if rng.random() < .2:
            e[0][rng.randrange(M)] = rng.choice([NAN, INF, -1.0, 0.0])
    cont = rng.choice(gen.CONTAINERS + ["dtype", "dtype", "range"])
    c = dict(t=t, v=v if n else v[0], e=(e if n else e[0]) if e else None, nsets=n, cont=cont)
    if cont == "dtype":
        c["dtype"] = rng.choice(DTYPES)
        c["layout"] = rng.choice(LAYOUTS)
        if c["dtype"] not in ("float64", ">f8"):
            # numbers the type can hold
            step = rng.randint(1, 3)
            if "u" in c["dtype"] or c["dtype"] in ("int8",):
                M = min(M, 40)
            if c["dtype"] == "float16":
                M = min(M, 600)     # whole numbers to 2048
            c["t"] = [float(a * step) for a in range(M)]
            mk = lambda: [float(rng.randint(0, 100)) for _ in range(M)]
            c["v"] = [mk() for _ in range(n)] if n else mk()
            c["e"] = None if e is None else [mk() for _ in range(n)] if n else mk()
        if n and M == 1:
            c["cont"] = "list"
    elif cont == "range":
        c["t"] = [float(a) for a in range(M)]
    elif M > 1 and rng.random() < .06:
        # times that repeat, at the end, at the beginning, anywhere or everywhere
        t, k = list(t), rng.randint(1, M - 1)
        where = rng.choice(["end", "begin", "any", "all"])
        if where == "end":
            t[-k:] = [t[-k - 1]] * k
        elif where == "begin":
            t[:k + 1] = [t[0]] * (k + 1)
        elif where == "any":
            for q in range(1, M):
                if rng.random() < .3:
                    t[q] = t[q - 1]
        else:
            t = [t[0]] * M
        c["t"] = t
    return c


def pack(x, case, times=False):
    if x is None:
        return None
    if case["cont"] == "dtype":
        a = np.array(x, dtype=case["dtype"])
        lay = case.get("layout", "C")
        if lay == "F":
            return np.asfortranarray(a)
        if lay == "strided":
            # every other element of a larger array, other numbers in between
            b = np.full([2 * k for k in a.shape], 77, dtype=a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return b[tuple(slice(None, None, 2) for _ in a.shape)]
        if lay == "reversed":
            return np.array(a[..., ::-1])[..., ::-1]
        return a
    if case["cont"] == "range":
        return range(len(x)) if times else x
    return gen.materialise(x, case["cont"], np)


def run(case, m):
    t, v, e, n = case["t"], case["v"], case["e"], case["nsets"] or 1
    M = len(t)
    vr = v if case["nsets"] else [v]
    er = (e if case["nsets"] else [e]) if e else []
    args = [pack(t, case, True), pack(v, case)] + ([pack(e, case)] if e else [])
    d = SACF(*args).data
    m.count("numpy", case["cont"] in ("np", "dtype"))
    m.count("with_errors", bool(e))

    def bad(what, **kw):
        m.violate(what, container=case["cont"], dtype=case.get("dtype"), M=M, datasets=n, **kw)
    if (d.N_datasets, d.M_datapoints) != (n, M):
        return bad("wrong numbers of datasets and samples", got=(d.N_datasets, d.M_datapoints))
    if not same_list(d.timeseries(), t):
        return bad("times are not those given", got=d.timeseries()[:10], want=t[:10])
    if not same_rows(d.data(), vr):
        return bad("values are not those given", got=d.data(), want=vr)
    if not same_rows(d.errors(), er):
        return bad("errors are not those given", got=d.errors(), want=er)
    m.count("values_compared", M * n)
    means = d.mean_data
    norm = d.normalised_data()
    if len(means) != n or len(norm) != n:
        return bad("statistics of another number of datasets", means=len(means), normalised=len(norm))
    for j in range(n):
        endless = [a for a in vr[j] if abs(a) == INF]
        if endless:
            # infinite values are values: the mean and the differences are those of arithmetic
            m.count("with_infinite")
            s = model.Series([0.0])
            s.mean, s.dmean, s.n = endless[0] if len(set(endless)) == 1 else NAN, 0.0, 0
            if not same(means[j], s.mean):
                return bad("wrong mean", dataset=j, got=means[j], want=s.mean)
            if len(norm[j]) != M or not same_list(norm[j], [a - s.mean for a in vr[j]]):
                return bad("a normalised value is not the value minus the mean", dataset=j,
                           values=vr[j][:10], mean=means[j], got=norm[j][:10])
        else:
            s = model.Series(vr[j])
        if s.has_nan:
            m.count("with_nan")
        if s.n:
            m.count("means")
            tol = s.dmean + 4 * model.U * abs(s.mean) + 1e-300
            if not abs(means[j] - s.mean) <= tol:
                return bad("wrong mean", dataset=j, got=means[j], want=s.mean, tolerance=tol)
        if len(norm[j]) != M:
            return bad("wrong number of normalised values", dataset=j)
        for a, b in zip(vr[j], norm[j]):
            if a != a:
                if b == b:
                    return bad("a missing value became a number", got=b)
            elif s.n and not abs(b - (a - means[j])) <= 2 * model.U * (abs(a) + abs(means[j])):
                return bad("a normalised value is not the value minus the mean", dataset=j, value=a,
                           mean=means[j], got=b)
    tn = d.normalised_timeseries()
    want = model.elapsed(t)
    if not same_list(tn, want):
        return bad("normalised times are not the times since the first", got=tn[:10], want=want[:10])
    if not same(d.max_time, t[-1]):
        return bad("wrong maximum time", got=d.max_time, want=t[-1])
    med = model.median_elapsed(want)
    m.count("even_median", M % 2 == 0)
    m.count("repeated_times", any(a == b for a, b in zip(t, t[1:])))
    if not abs(d.median_time - med) <= 4 * model.U * abs(med):
        return bad("wrong median time", got=d.median_time, want=med)
    if M < 80 and all(b > a for a, b in zip(want, want[1:])):
        p = dict(min_lag=-want[-1] / 3, max_lag=want[-1], lag_resolution=want[-1] / 8 or 1.0)
        base = SACF(t, v).autocorrelation(**p)
        other = e if e else ([[float(q) for q in range(M)]] * n if case["nsets"]
                             else [float(q) for q in range(M)])
        x = SACF(t, v, other).autocorrelation(**p)
        if not same_result(base, x):
            return bad("errors influence the estimate", without=base[1], with_=x[1])
        m.count("error_independence")
    if len(set(vr[0])) > 1:
        m.seen(t, v, e, case["cont"])
