"""Workload generation: JSON-able cases for the properties (runs under PyPy)."""
import math

NAN = float("nan")


def cum(start, gaps):
    out = [start]
    for g in gaps:
        out.append(out[-1] + g)
    return out


TIME_KINDS = ["int", "dyadic", "step", "irr", "irrint", "irrdy", "gaps", "jd", "log", "pair",
              "neg", "jitter", "small", "large", "far"]


def times(rng, M, kind=None):
    """Strictly increasing finite times (also after subtracting the first)."""
    for _ in range(50):
        k = kind or rng.choice(TIME_KINDS)
        n = M - 1
        if k == "int":
            t = [float(i) for i in range(M)]
        elif k == "dyadic":
            s = 2.0 ** rng.randint(-6, 4)
            t = [rng.randint(-64, 64) * s + i * s for i in [0]][:1]
            t = [t[0] + i * s for i in range(M)]
        elif k == "step":
            s = rng.choice([0.1, 0.3, 1 / 3.0, 0.02, 7.7, rng.uniform(1e-3, 10)])
            o = rng.choice([0.0, 0.0, rng.uniform(-5, 5)])
            t = [o + i * s for i in range(M)]
        elif k == "irr":
            t = sorted(rng.uniform(0, M) for _ in range(M))
        elif k == "irrint":
            t = cum(float(rng.randint(-20, 20)), [float(rng.randint(1, 9)) for _ in range(n)])
        elif k == "irrdy":
            s = 2.0 ** rng.randint(-5, 2)
            t = cum(s * rng.randint(-100, 100), [s * rng.randint(1, 12) for _ in range(n)])
        elif k == "gaps":
            t = cum(rng.uniform(-3, 3),
                    [rng.uniform(0.5, 1) if rng.random() < .8 else rng.uniform(5, 40)
                     for _ in range(n)])
        elif k == "jd":
            t = cum(2457000.5 + rng.randint(0, 999),
                    [rng.choice([1 / 64.0, 1 / 64.0, 1 / 32.0, 0.5, 3.25]) for _ in range(n)])
        elif k == "log":
            t = cum(0.0, [2.0 ** rng.uniform(-2, 4) for _ in range(n)])
        elif k == "pair":
            t = cum(0.0, [rng.uniform(1, 2) for _ in range(n)])
            if M > 2:
                i = rng.randrange(1, M)
                t[i:] = [x - t[i] + t[i - 1] + 2.0 ** -rng.randint(2, 20) for x in t[i:]]
        elif k in ("small", "large"):
            # far from 1, where an absolute tolerance shows
            f = 10.0 ** (rng.uniform(-14, -5) if k == "small" else rng.uniform(5, 15))
            if rng.random() < .4:
                f = 2.0 ** round(math.log(f, 2))
            o = f * rng.choice([0.0, 0.0, 3.0, -17.0])
            t = cum(o, [f * (float(rng.randint(1, 4)) if rng.random() < .5 else
                             rng.uniform(.2, 2)) for _ in range(n)])
        elif k == "far":
            # nearly as far from 1 as numbers reach
            f = 2.0 ** rng.choice([rng.randint(-900, -100), rng.randint(100, 1000), 1000, -540, 520])
            t = [f * x for x in times(rng, M, rng.choice(["int", "irr", "irrint", "gaps", "log"]))[0]]
        elif k == "neg":
            t = cum(-float(rng.randint(1, 500)), [float(rng.randint(1, 4)) for _ in range(n)])
        else:
            t = [i + rng.uniform(-.45, .45) for i in range(M)]
        tn = [x - t[0] for x in t]
        if all(b > a for a, b in zip(tn, tn[1:])):
            return t, k
    return [float(i) for i in range(M)], "int"


VALUE_KINDS = ["gauss", "sine", "smallint", "sparse", "spike", "offset", "tiny", "huge", "ramp",
               "alt", "dyadic", "extreme"]


def values(rng, t, kind=None):
    M = len(t)
    k = kind or rng.choice(VALUE_KINDS)
    if k == "gauss":
        v = [rng.gauss(0, 1) for _ in t]
    elif k == "sine":
        p = rng.uniform(2, M + 2)
        v = [math.sin(2 * math.pi * x / p) + rng.gauss(0, .2) for x in t]
    elif k == "smallint":
        v = [float(rng.randint(-3, 3)) for _ in t]
    elif k == "sparse":
        v = [float(rng.randint(1, 5)) if rng.random() < .3 else 0.0 for _ in t]
    elif k == "spike":
        v = [0.0] * M
        v[rng.randrange(M)] = rng.choice([1.0, -4.0])
    elif k == "offset":
        o = rng.choice([1e3, -1e5, 1e6, 3e7])
        v = [o + rng.gauss(0, 1) for _ in t]
    elif k == "tiny":
        v = [1e-9 * rng.gauss(0, 1) for _ in t]
    elif k == "huge":
        v = [1e9 * rng.gauss(1, 1) for _ in t]
    elif k == "extreme":
        f = 10.0 ** rng.randint(-110, 110)
        v = [f * rng.gauss(0, 1) for _ in t]
    elif k == "ramp":
        v = [float(i) for i in range(M)]
    elif k == "alt":
        v = [float((-1) ** i) * (1 + (i % 3)) for i in range(M)]
    else:
        v = [rng.randint(-64, 64) / 16.0 for _ in t]
    return v, k


def size(rng, tier, big=False):
    r = rng.random()
    if not big and r > .992:
        return rng.randint(201, 1500)
    if r < .12:
        return rng.randint(1, 3)
    if r < .55:
        return rng.randint(4, 16)
    if r < .85:
        return rng.randint(17, 60)
    if r < .97 or not big:
        return rng.randint(61, 200)
    return rng.randint(300, 2500 if tier == "quick" else 6000)


def settings(rng, t, budget, force=None):
    """Lag settings (a subset of min_lag, max_lag, lag_resolution, alpha) that keep the work
    len(t) * number of lags within the budget.  The result never depends on the code under test."""
    M = len(t)
    tn = [x - t[0] for x in t]
    T = tn[-1]
    if T and not 1e-25 < T < 1e25:
        # the same settings in other units
        e = math.frexp(T)[1]
        p = settings(rng, [math.ldexp(x, -e) for x in tn], budget, force)
        big = 1.7976931348623157e308
        for k in p:
            if p[k] < 1e300 and not (k == "alpha" and rng.random() < .2):
                p[k] = max(-big, min(big, p[k] * 2.0 ** (e // 2) * 2.0 ** (e - e // 2)))
        return p
    res0 = min([b - a for a, b in zip(tn, tn[1:])] or [1.0])
    p = {}
    cap = max(4, budget // M)
    if M == 1:
        T = 4.0
        res0 = 1.0
    r = rng.random()
    lo, hi, res = -tn[-1], tn[-1], (res0 if M > 1 else 1.7976931348623157e308)
    # range
    if r < .35:
        pass
    elif r < .45:
        p["min_lag"] = 0.0
    elif r < .55:
        p["min_lag"] = rng.choice([res0, T / 2, rng.uniform(0, T), -res0])
    elif r < .65:
        p["max_lag"] = rng.choice([T / 2, T * 2, T + res0 / 2, 0.0, rng.uniform(0, T), res0 * 3.5])
    elif r < .75:
        p["min_lag"] = rng.choice([-T * 2, -T / 4, 0.0, -rng.uniform(0, T)])
        p["max_lag"] = rng.choice([T / 3, T * 1.5, rng.uniform(0, T)])
    elif r < .82:
        a, b = sorted([rng.uniform(-T, T), rng.uniform(-T, T)])
        p["min_lag"], p["max_lag"] = a, b
    elif r < .86:
        k = rng.choice([0.0, res0, T, -res0, rng.uniform(-T, T), T * 3])
        p["min_lag"] = p["max_lag"] = k
    elif r < .89:
        p["min_lag"], p["max_lag"] = res0, -res0
    elif r < .95:
        p["min_lag"] = float(-rng.randint(0, 5)) * res0
        p["max_lag"] = float(rng.randint(0, 9)) * res0
    else:
        p["min_lag"], p["max_lag"] = -T, -res0
    lo = p.get("min_lag", lo)
    hi = p.get("max_lag", hi)
    # resolution
    r = rng.random()
    span = max(hi - lo, 0.0)
    if r < .45:
        pass
    elif r < .6:
        p["lag_resolution"] = res0 * rng.choice([.5, .25, 1.5, 2.0, 3.0])
    elif r < .8:
        p["lag_resolution"] = rng.choice(
            [.5, .1, 1.0, .3, 2.5] if 1e-3 < res0 < 1e3 else [res0 / 3, .7 * res0, 2.5 * res0])
    elif r < .9:
        p["lag_resolution"] = (span or 1.0) / rng.uniform(1, 30)
    elif r < .96:
        p["lag_resolution"] = (span or 1.0) * rng.choice([1.0, 1.5, 10.0])
    else:
        p["lag_resolution"] = (span or 1.0) / cap
    res = p.get("lag_resolution", res)
    if not res > 0 or span / res > cap:
        p["lag_resolution"] = max(span / cap, res0) if span else 1.0
        if span / p["lag_resolution"] > cap:
            p["lag_resolution"] = span / cap
    res = p.get("lag_resolution", res)
    if res < 1e-15 * max(abs(lo), abs(hi)):
        p["lag_resolution"] = 1e-12 * max(abs(lo), abs(hi))     # or no lag would advance
    if rng.random() < .4:
        p["alpha"] = rng.choice([T / 2 or 1.0, res0, .01, 1.0, 1000.0, rng.uniform(.05, 5),
                                 (T or 1.0) * rng.choice([1e-6, 1e-3, 1e3, 1e9])])
        if rng.random() < .06:
            p["alpha"] = rng.choice([1e-280, 1e-200, 1e-165, 1e160, 1e280, 1.7976931348623157e308,
                                 float("inf"), float("inf")])
    return p


def large(M, kind, p, nsets=0, vkind="gauss", seed=7):
    """A case too large for the random sizes."""
    import random
    rng = random.Random(seed * 1000003 + M)
    t, tk = times(rng, M, kind)
    T = t[-1] - t[0] or 1.0
    p = {k: (x if k == "alpha" else x * T) for k, x in p.items()}
    vs = [values(rng, t, vkind)[0] for _ in range(max(1, nsets))]
    return dict(t=t, v=vs if nsets else vs[0], p=p, cont="list", tk=tk, vk=vkind, nsets=nsets)


SHORT = dict(min_lag=-.1, max_lag=.9, lag_resolution=.23)


CONTAINERS = ["list", "tuple", "np", "mixed"]


def case(rng, tier, budget=60000, big=True, nsets=None, tkind=None, vkind=None, M=None):
    M = M or size(rng, tier, big)
    t, tk = times(rng, M, tkind)
    if nsets is None:
        nsets = rng.choice([0, 0, 0, 0, 1, 2, 3, 5] + ([17] if M < 30 else []))
    vs, vk = [], []
    for _ in range(max(nsets, 1)):
        v, k = values(rng, t, vkind)
        vs.append(v)
        vk.append(k)
    if nsets > 1 and rng.random() < .1:
        vs[1] = list(vs[0])
    p = settings(rng, t, max(budget // max(nsets, 1), 4 * M))
    return dict(t=t, v=vs if nsets else vs[0], p=p, cont=rng.choice(CONTAINERS),
                tk=tk, vk=vk[0], nsets=nsets)


def materialise(x, cont, np=None):
    """Turns a (nested) list into another container with the same numbers."""
    if cont == "list" or x is None:
        return x
    nested = bool(x) and isinstance(x[0], (list, tuple))
    if cont == "tuple":
        return tuple(tuple(r) for r in x) if nested else tuple(x)
    if cont == "np":
        # a (n, 1) array's rows would convert to float, which is ambiguous
        if nested and len(x[0]) == 1:
            return x
        return np.array(x, dtype=float)
    if nested:
        return [tuple(r) for r in x]
    return [int(a) if (isinstance(a, float) and a == a and abs(a) < 1e15 and a == int(a)) else a
            for a in x]
