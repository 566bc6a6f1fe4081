from common import *

RULE = ("random shapes of times, values and errors (empty, short, long, ragged, ragged with the right "
        "total, flat or nested, one of them malformed or none) and time axes made invalid in one place "
        "(repeated, swapped, NaN, infinite), in every container; after each refusal a reference series "
        "is estimated again; non-trivial: a case whose outcome was a refusal or an acceptance next to "
        "one; distinct by shapes and kind")
NCASES = {"quick": 40000, "thorough": 600000}
MIN = {"refused:empty": 2000, "refused:bad": 5000, "accepted": 5000, "refused:time": 3000,
       "reference_still_right": 8000, "other_containers": 4000}

BAD = ["dup", "swap", "nan", "inf", "-inf", "dupall", "reverse", "dup0", "nan0", "duplast"]


def fixed(tier):
    for M in (40000, 70000, 140000):
        for at in (None, 1, 20000, 33000, 39999):
            t = [float(x) for x in range(M)]
            if at is not None:
                t[at] = t[at - 1] - (0.0 if at % 2 else .5)
            yield dict(kind="time", bad=None if at is None else "swap", t=t, v=[0.0, 1.0, 5.0, 2.0] * (M // 4),
                       nsets=0, e=None, ekind=None, cont="list", sel="natural", w="fractional")


def values(rng, n):
    """Of any kind: a valid time axis is all it takes."""
    r = rng.random()
    if r < .7:
        return [rng.gauss(0, 1) for _ in range(n)]
    if r < .85:
        return [rng.choice([0.0, 2.0, -1e300, 5e-324, NAN])] * n
    if r < .93:
        return [rng.choice([NAN, 1.0, -2.0]) for _ in range(n)]
    return [rng.gauss(0, 1) * 10.0 ** rng.randint(-300, 300) for _ in range(n)]


# in units of the length
RANGES = [[None, None], [None, None], [0.0, 0.0], [0.0, 1.0], [None, .5], [-.5, .5], [.25, .25],
          [-1.0, 0.0], [0.0, None]]


def generate(rng, i, tier):
    M = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 20])
    if rng.random() < .35:
        # a well-shaped series with, mostly, a bad time axis
        t, _ = gen.times(rng, max(M, 1))
        M = len(t)
        bad = rng.choice(BAD + [None])
        if M == 1 and bad in ("dup", "swap", "dupall", "reverse", "dup0", "duplast"):
            bad = "nan"
        a = rng.randrange(1, M) if M > 1 else 0
        if bad == "dup":
            t[a] = t[a - 1]
        elif bad == "dup0":
            t[1] = t[0]
        elif bad == "duplast":
            t[-1] = t[-2]
        elif bad == "swap":
            t[a], t[a - 1] = t[a - 1], t[a]
        elif bad == "reverse":
            t = t[::-1]
        elif bad == "dupall":
            t = [t[0]] * M
        elif bad == "nan":
            t[a] = NAN
        elif bad == "nan0":
            t[0] = NAN
        elif bad in ("inf", "-inf"):
            t[rng.randrange(M)] = float(bad)
        n = rng.choice([0, 0, 1, 3])
        v = [values(rng, M) for _ in range(max(1, n))]
        return dict(kind="time", bad=bad, t=t, v=v if n else v[0], nsets=n, e=None, ekind=None,
                    cont=rng.choice(gen.CONTAINERS), range=rng.choice(RANGES),
                    sel=rng.choice(["natural", "fast"]),
                    w=rng.choice(["fractional", "gaussian", "fractional_squared"]))
    t = [float(x) for x in range(M)] if rng.random() < .92 else []
    same_ = rng.choice([0.0, 1.5, NAN]) if rng.random() < .08 else None
    mk = lambda n: [same_] * n if same_ is not None else \
        [round(rng.gauss(0, 2), 3) if rng.random() > .03 else NAN for _ in range(n)]

    def length():
        r = rng.random()
        if r < .72:
            return M
        return max(0, M + rng.choice([-1, 1, 2, -2, M, 5, -M]))

    def flat():
        return mk(length())

    def nested(n):
        if n > 1 and rng.random() < .15:
            # ragged, with the right total
            ls = [M] * n
            a, b = rng.sample(range(n), 2)
            d = rng.randint(1, M)
            ls[a] += d
            ls[b] -= d
            return [mk(x) for x in ls]
        return [mk(length()) for _ in range(n)]
    n = rng.choice([0, 0, 1, 2, 2, 3, 4])
    v = nested(n) if n else flat()
    ekind = rng.choice([None, None, "flat", "nested", "match", "match", "empty"])
    if ekind == "match":
        ekind = "nested" if n else "flat"
    if ekind is None:
        e = None
    elif ekind == "flat":
        e = flat()
    elif ekind == "empty":
        e = rng.choice([[], [[]] if n else []])
    else:
        e = nested(max(1, n + rng.choice([0, 0, 0, 0, 1, -1])))
    return dict(kind="shape", t=t, v=v, nsets=n, e=e, ekind=ekind,
                cont=rng.choice(["list", "list", "tuple"]),
                conts=[rng.choice(["list", "tuple", "np", "array", "mixed"]) for _ in range(3)]
                if rng.random() < .5 else None)


def pack(x, cont):
    if x is None:
        return None
    if cont == "array":
        import array
        return [array.array("d", r) for r in x] if x and isinstance(x[0], list) else \
            array.array("d", x)
    if cont == "np" and x and isinstance(x[0], list) and \
            (len(set(len(r) for r in x)) > 1 or len(x[0]) < 2):
        # not an array, or one whose rows would pass for numbers
        return [np.array(r, dtype=float) for r in x] if len(x[0]) > 1 else x
    return gen.materialise(x, cont, np)


def make(case, m):
    if not case.get("conts"):
        return build(case, case["e"])
    args = [pack(x, c) for x, c in zip([case["t"], case["v"], case["e"]], case["conts"])]
    if case["e"] is None:
        return SACF(*args[:2])
    m.count("other_containers")
    return SACF(*args)


def setup(m):
    t = [0.0, 1.0, 2.5, 4.0, 4.5]
    m.ref = SACF(t, [[1.0, -2.0, 3.0, 0.5, 2.0], [0.0, 1.0, 0.0, 4.0, 2.0]])
    m.refres = [m.ref.autocorrelation(), m.ref.autocorrelation(weight_function="gaussian")]


def reference(m):
    ok = same_result(m.ref.autocorrelation(), m.refres[0]) and \
        same_result(m.ref.autocorrelation(weight_function="gaussian"), m.refres[1])
    if not ok:
        m.violate("a series that exists gives another result after a refused one")
    m.count("reference_still_right")


def expected(case):
    """'ok', 'empty', 'bad' or 'mixed' (values and errors of different nesting)."""
    t, v, e = case["t"], case["v"], case["e"]
    nested = case["nsets"] > 0
    cells = sum(len(r) for r in v) if nested else len(v)
    if not t or not cells:
        kind = "empty"
    elif any(len(r) != len(t) for r in (v if nested else [v])):
        kind = "bad"
    else:
        kind = "ok"
    if e is not None:
        enested = bool(e) and isinstance(e[0], list)
        if e and v and enested != nested:
            return "mixed"
        ecells = sum(len(r) for r in e) if enested else len(e)
        if ecells and kind == "ok":
            if enested:
                if [len(r) for r in e] != [len(r) for r in v]:
                    kind = "bad"
            elif len(e) != len(v):
                kind = "bad"
    return kind


def run(case, m):
    if case["kind"] == "time":
        S = build(case)
        span = max([x for x in case["t"] if abs(x) < INF] or [1.0]) - \
            min([x for x in case["t"] if abs(x) < INF] or [0.0])
        res = span / 7 or 1.0       # the default could be arbitrarily small
        lo, hi = [None if x is None else x * span for x in case.get("range", RANGES[0])]
        for kw in (dict(selection_function=case["sel"], weight_function=case["w"]), {}):
            try:
                S.autocorrelation(lo, hi, res, **kw)
                got = None
            except Exception as x:
                got = x
            if case["bad"] is None and got is not None:
                m.violate("refused a valid time axis", error=got, t=case["t"])
                return
            if case["bad"] is not None and not isinstance(got, ValueError):
                m.violate("estimated on an invalid time axis", bad=case["bad"], t=case["t"][:20],
                          outcome=got)
                return
        if case["bad"] is None:
            m.count("accepted")
        else:
            m.count("refused:time")
            reference(m)
        m.seen("time", case["bad"], len(case["t"]), case["t"], case["nsets"], case["cont"])
        return
    want = expected(case)
    S = None
    try:
        S = make(case, m)
        got = "ok"
    except EmptyDataStructureException:
        got = "empty"
    except BadDataInputException:
        got = "bad"
    except TypeError:
        got = "type"
    except Exception as x:
        got = repr(x)
    good = got in ("empty", "bad", "type") if want == "mixed" else got == want
    if want == "empty" and got == "type" and case["e"] and case["v"] == []:
        good = True     # no values at all, and errors: nothing to match the nesting with
    if not good:
        m.violate("wrong outcome of creating a series", want=want, got=got, times=len(case["t"]),
                  values=[len(r) for r in case["v"]] if case["nsets"] else len(case["v"]),
                  errors=case["e"])
        return
    if got == "ok":
        m.count("accepted")
        S.autocorrelation()
        d = S.data
        if d.N_datasets != (case["nsets"] or 1) or d.M_datapoints != len(case["t"]):
            m.violate("an accepted series has another shape", N=d.N_datasets, M=d.M_datapoints)
            return
    else:
        m.count("refused:" + got)
        if (m.index or 0) % 3 == 0:
            reference(m)
    shape = lambda x: None if x is None else [len(r) for r in x] if x and isinstance(x[0], list) else len(x)
    m.seen(len(case["t"]), shape(case["v"]), shape(case["e"]), case["cont"], case["nsets"])
