from common import *

RULE = ("random series, settings and functions; the same estimate asked for in up to 12 other ways "
        "(positional, by name, None or left out, defaults written out, other numeric types, names built at run "
        "time, with the steps of autocorrelation done by hand, columns by name, from a file) must be the same bit for bit; and "
        "calls with one unknown name or one setting that is no number must raise; non-trivial: at "
        "least three forms compared on a non-empty result; distinct by series, settings, functions")
NCASES = {"quick": 12000, "thorough": 200000}
MIN = {"forms_compared": 80000, "none_given": 8000, "defaults_written_out": 8000, "other_types": 10000,
       "by_hand": 8000, "unknown_refused": 8000, "no_number_refused": 8000, "from_file": 500,
       "columns_by_name": 5000}

SELS = ["natural", "natural", "fast"]
WS = ["fractional", "fractional", "gaussian", "fractional_squared"]
NAMES = ["min_lag", "max_lag", "lag_resolution", "alpha"]
UNKNOWN = ["Natural", "FAST", "", "linear", "natural ", "gauss", "fractional-squared", "squared",
           "default", "none", "fastnatural", "Fractional", "standard", "natural\0", None, 0, 1.0, b"fast",
           True, False, ("fast",)]
NO_NUMBERS = ["1.0", "", "abc", b"1", [1.0], (), {}, 1j, object, "None", [[1.0]], "nan"]


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=1500, big=False, M=rng.choice([1, 2, 3, 5, 8, 20, 45]))
    # so that other types hold the same numbers
    if rng.random() < .5:
        T = c["t"][-1] - c["t"][0]
        gap = min([b - a for a, b in zip(c["t"], c["t"][1:])] or [1.0])
        if 4 < T < 200 and T / gap < 200:
            c["p"] = {k: float(rng.randint(*r)) for k, r in (
                ("min_lag", (-3, 3)), ("max_lag", (0, 20)), ("lag_resolution", (1, 4)), ("alpha", (1, 9)))
                if rng.random() < .6}
    c["cont"] = "list"
    c["sel"], c["w"], c["x"] = rng.choice(SELS), rng.choice(WS), rng.randrange(1 << 30)
    return c


def retype(x, rng):
    out = [np.float64(x)]
    if abs(x) < 1e30 and float(np.float32(x)) == x:
        out.append(np.float32(x))
    if abs(x) < 1e15 and x == int(x):
        out += [int(x), np.int64(int(x))]
        if x in (0.0, 1.0):
            out.append(bool(x))
    return rng.choice(out)


def build_name(s):
    """The same name as another object."""
    return "".join(list(s))


def run(case, m):
    import random
    rng = random.Random(case["x"])
    S = build(case)
    p = {k: float(x) for k, x in case["p"].items()}
    f = dict(selection_function=case["sel"], weight_function=case["w"])
    plain = f == dict(selection_function="natural", weight_function="fractional")
    want = S.autocorrelation(**dict(p, **f))
    n = case["nsets"] or 1
    ok = [True]

    def expect(what, got):
        m.count("forms_compared")
        if len(got) < 2 or not same_result(want, got):
            m.violate("the same estimate, asked for in another way, is different: " + what,
                      got=(got[0][:4], got[1][:4]), want=(want[0][:4], want[1][:4]), settings=p,
                      functions=f)
            ok[0] = False
        return ok[0]
    full = S.autocorrelation(return_correlator=True, **dict(p, **f))
    if not expect("with the correlator", full):
        return
    corr = full[2]
    none = {k: p.get(k) for k in NAMES}
    m.count("none_given", any(x is None for x in none.values()))
    if not expect("None for what is not given", S.autocorrelation(**dict(none, **f))):
        return
    args = [p.get(k) for k in NAMES] + [case["sel"], case["w"]]
    if not expect("positional", S.autocorrelation(*args)):
        return
    if not expect("partly positional", S.autocorrelation(*args[:2], **dict(
            {k: x for k, x in p.items() if k in NAMES[2:]}, return_correlator=False, **f))):
        return
    if plain and not expect("functions left out", S.autocorrelation(**p)):
        return
    if case["w"] == "fractional" and not expect(
            "weights left out", S.autocorrelation(selection_function=case["sel"], **p)):
        return
    if case["sel"] == "natural" and not expect(
            "selection left out", S.autocorrelation(weight_function=case["w"], **p)):
        return
    m.count("defaults_written_out", len(p) < 4)
    if not expect("defaults written out", S.autocorrelation(**dict(
            {k: p.get(k, getattr(corr, k)) for k in NAMES}, **f))):
        return
    if p:
        q = {k: retype(x, rng) for k, x in p.items()}
        m.count("other_types", len(q))
        if not expect("as %s" % [type(x).__name__ for x in q.values()],
                      S.autocorrelation(**dict(q, **f))):
            return
    if not expect("names built at run time", S.autocorrelation(**dict(
            p, **{k: build_name(x) for k, x in f.items()}))):
        return

    def outcome(c):
        cc = c.correlations()
        return c.lag_timeseries(), cc if n > 1 else cc[0]
    c = Correlator(S.data)
    if rng.random() < .5:
        SACF.set_up_correlation(c, **none)
    else:
        for k in rng.sample(sorted(p), len(p)):
            setattr(c, k, p[k])
    if plain and rng.random() < .7:
        c.calculateStandardCorrelation()
    elif plain:
        c = None        # the other implementation may round differently
    elif case["w"] == "fractional" and rng.random() < .5:
        SACF.find_correlation(c, case["sel"])
    else:
        SACF.find_correlation(corr=c, weight_function=case["w"], selection_function=case["sel"])
    if c is not None:
        m.count("by_hand")
        if not expect("with a correlator set up by hand", outcome(c)):
            return
    # how the series is given
    t, v = case["t"], case["v"]
    others = [("columns by name", lambda: SACF(timeseries=t, values=v)),
              ("without errors, explicitly", lambda: SACF(t, v, None)),
              ("all arguments", lambda: SACF(t, v, None, None)),
              ("without a file name", lambda: SACF(values=v, timeseries=t, errors=None, filename="")),
              ("swapped names", lambda: SACF(values=v, errors=None, timeseries=t))]
    what, make = rng.choice(others)
    m.count("columns_by_name")
    if not expect(what, make().autocorrelation(**dict(p, **f))):
        return
    if not case["nsets"] and case["x"] % 8 == 0:
        s = Scratch()
        try:
            path = s.write("x.dat", "".join("%r %r\n" % z for z in zip(t, v)).encode())
            F = rng.choice([lambda: SACF(None, None, None, path), lambda: SACF(filename=path)])()
            m.count("from_file")
            if not expect("from a file", F.autocorrelation(**dict(p, **f))):
                return
        finally:
            s.close()
    if want[0]:
        refuse(case, m, S, p, f, rng)
    if not expect("again, after the refusals", S.autocorrelation(**dict(p, **f))):
        return
    if want[0]:
        m.seen(t, v, sorted(p.items()), sorted(f.items()))


def refuse(case, m, S, p, f, rng):
    # a name the library does not have; the settings are valid
    known = set(SELS + WS)
    bad = rng.choice(UNKNOWN)
    which = rng.choice(sorted(f))
    if rng.random() < .2:
        # known, but of the other kind
        bad = rng.choice(WS) if which == "selection_function" else rng.choice(SELS)
    for other in (f, dict(selection_function="natural", weight_function="fractional")):
        try:
            r = S.autocorrelation(**dict(dict(p, **other), **{which: bad}))
            m.violate("an unknown function was accepted", name=bad, argument=which, got=r[1][:3])
            return
        except Exception:
            m.count("unknown_refused")
    bad = rng.choice(NO_NUMBERS)
    which = rng.choice(NAMES)
    try:
        r = S.autocorrelation(**dict(dict(p, **f), **{which: bad}))
        m.violate("a setting that is no number was accepted", setting=which, given=bad, got=r[1][:3])
        return
    except Exception:
        m.count("no_number_refused")
    try:
        S.autocorrelation(**dict(p, lag=1.0))
        m.violate("an unknown argument was accepted")
    except TypeError:
        pass
