"""Independent reference model of the selective autocorrelation estimator, with error bounds.

Every function is written from the definition; nothing here is taken from the code under test.
The only arithmetic it shares with the implementation is IEEE double addition of a sample's
elapsed time and the lag, and even that only where the outcome cannot depend on it (see `near`).
"""
import math
from bisect import bisect_left
from fractions import Fraction

U = 2.0 ** -53


def elapsed(t):
    return [x - t[0] for x in t]


def ulp(x):
    x = abs(x)
    if x == 0.0 or x != x or x == float("inf"):
        return 5e-324
    m, e = math.frexp(x)
    return math.ldexp(1.0, max(e - 53, -1074))


def median_elapsed(tn):
    n = len(tn)
    return tn[n // 2] if n % 2 else (tn[n // 2 - 1] + tn[n // 2]) / 2


class Series(object):
    """Mean-subtracted values of one dataset with rigorous bounds on the rounding errors."""

    def __init__(self, v):
        good = [x for x in v if x == x]
        n = len(good)
        self.n = n
        self.M = len(v)
        self.mean = math.fsum(good) / n if n else float("nan")
        sabs = math.fsum(abs(x) for x in good)
        # naive summation of n terms, then a division, then a subtraction
        self.dmean = (n + 2) * U * (sabs / n) if n else 0.0
        self.x = [a - self.mean for a in v]
        top = max([abs(a) for a in good] or [0.0])
        self.dx = self.dmean + 4 * U * (top + abs(self.mean)) if n else 0.0
        self.N = math.fsum((a - self.mean) ** 2 for a in good)
        s1 = math.fsum(abs(a - self.mean) for a in good)
        self.dN = 2 * self.dx * s1 + n * self.dx ** 2 + (n + 4) * 2 * U * self.N
        #: the normalisation is known to better than 1e-3
        self.ok = n > 0 and self.N > 0 and self.dN < 1e-3 * self.N and self.N > 1e-280 \
            and self.N < 1e280
        self.has_nan = n != self.M


def near(tn, k):
    """For each sample i that takes part at lag k: (i, [possible partners], [distance]).

    Also returns the number of samples whose choice is ambiguous: closer to a tie, or to the end
    of the series, than rounding can tell apart (an exact tie that rounding cannot disturb is not
    ambiguous: the later sample is chosen)."""
    out = []
    amb = 0
    back = tn[-1]
    n = len(tn)
    ak = abs(k)
    for i in range(n):
        ti = tn[i]
        s = ti + k
        big = max(abs(s), ak, back)
        eps = 16 * U * big
        d = s - back
        if d > eps:
            break
        drop = False
        if d > -eps:
            ex = Fraction(ti) + Fraction(k) - Fraction(back)
            if ex > 0 and s > back:
                # certainly beyond the end if no rounding is involved
                if Fraction(s) == Fraction(ti) + Fraction(k) and \
                        Fraction(back) - Fraction(k) == Fraction(back - k):
                    break
                drop = True
            elif ex != 0:
                drop = True
        j = bisect_left(tn, s)
        if j >= n:
            j = n - 1
        cand = [j]
        if j > 0:
            a = s - tn[j - 1]
            b = tn[j] - s
            if a < b - eps:
                cand = [j - 1]
            elif a > b + eps:
                cand = [j]
            else:
                S = Fraction(ti) + Fraction(k)
                fa = S - Fraction(tn[j - 1])
                fb = Fraction(tn[j]) - S
                if fa == fb and Fraction(s) == S:
                    cand = [j]      # an undisturbed tie: the later sample
                else:
                    cand = [j - 1, j] if fa < fb else [j, j - 1]
        # s itself may be rounded onto, or just past, a sample; then the sample before or
        # after it is at a distance of a whole step and never a candidate: nothing to do.
        if drop or len(cand) > 1:
            amb += 1
        out.append((i, cand, drop, s))
    return out, amb


def fast(tn, k):
    """Fast selection for k >= 0: the first sample's nearest neighbour, the rest by index."""
    sel, amb = near(tn, k)
    if not sel:
        return [], 0
    n = len(tn)
    j0 = sel[0][1]
    out = []
    for pos, (i, cand, drop, s) in enumerate(sel):
        c = [j + pos for j in j0 if j + pos < n]
        if not c:
            break
        d = drop or len(c) < len(j0)
        out.append((i, c, d, s))
    return out, sum(1 for o in out if o[2] or len(o[1]) > 1)


def w_fractional(d, a):
    return 1.0 / (1.0 + d / a)


def w_fractional_squared(d, a):
    return 1.0 / (1.0 + (d / a) * (d / a))


def w_gaussian(d, a):
    return math.exp(-(d / a) * (d / a) / 2.0)


WEIGHTS = {"fractional": w_fractional, "fractional_squared": w_fractional_squared,
           "gaussian": w_gaussian}


def weight_sens(name, d, a):
    """|dW/dd| bounds, to turn a rounding error in the distance into one in the weight."""
    if name == "fractional":
        return 1.0 / a
    return 1.0 / a    # both others: max |W'| < 1/a


def estimate(tn, series, k, alpha, weight="fractional", selection="natural"):
    """[(value, tolerance)] per dataset at lag k, and the number of ambiguous samples."""
    pairs, amb = (near if selection == "natural" else fast)(tn, k)
    W = WEIGHTS[weight]
    sens = weight_sens(weight, 0, alpha)
    prep = []
    big = max(abs(k), tn[-1])
    for (i, cand, drop, s) in pairs:
        ws = []
        for j in cand:
            d = abs(tn[j] - s)
            ws.append((j, W(d, alpha), min(1.0, sens * 8 * U * big)))
        prep.append((i, ws, drop))
    out = []
    for sr in series:
        x = sr.x
        num = 0.0
        mag = 0.0
        slack = 0.0
        err = 0.0
        for (i, ws, drop) in prep:
            j, w, dw = ws[0]
            c = w * x[i] * x[j]
            num += c
            mag += abs(c)
            err += w * (abs(x[i]) + abs(x[j]) + sr.dx) * sr.dx + dw * abs(x[i] * x[j])
            if len(ws) > 1:
                slack += abs(c - ws[1][1] * x[i] * x[ws[1][0]])
            if drop:
                slack += abs(c)
        n = len(prep)
        err += (n + 8) * 4 * U * mag
        if not sr.ok:
            out.append((num / sr.N if sr.N else float("nan"), None))
            continue
        val = num / sr.N
        tol = 4 * ((err + slack) / sr.N + abs(val) * sr.dN / sr.N) + 1e-14
        out.append((val, tol))
    return out, amb


def grid_default(tn):
    """(min_lag, max_lag, lag_resolution) when nothing is set; resolution None for one sample."""
    res = min(b - a for a, b in zip(tn, tn[1:])) if len(tn) > 1 else None
    return -tn[-1], tn[-1], res


def rough_lag_count(lo, hi, res):
    if res is None or hi < lo:
        return 1 if (hi >= lo) else 0
    return (hi - lo) / res + 1


def check_grid(lags, lo, hi, res):
    """None, or what is wrong with the returned lags for the effective settings."""
    if hi < lo or hi != hi or lo != lo:
        return None if len(lags) == 0 else "lags returned for an empty range"
    if not lags:
        return "no lags for a non-empty range"
    scale = max(abs(lo), abs(hi))
    for a in lags:
        if not (lo <= a <= hi):
            return "lag %r outside [%r, %r]" % (a, lo, hi)
    for a, b in zip(lags, lags[1:]):
        if not a < b:
            return "lags not strictly increasing: %r, %r" % (a, b)
    if lags[0] != lo:
        return "first lag %r is not min_lag %r" % (lags[0], lo)
    if lags[0] < 0 < lags[-1] and 0.0 not in lags:
        return "zero lag missing between %r and %r" % (lags[0], lags[-1])
    if res is None:
        return None if len(lags) == 1 else "several lags for a single sample"
    # all lags are min_lag + n*res up to accumulated rounding, except an inserted zero
    n = 0
    tol0 = 8 * U * (scale + res)
    skipped_zero = False
    for idx, a in enumerate(lags):
        want = lo + n * res
        tol = (n + 2) * tol0
        if abs(a - want) <= tol and not (a == 0.0 and idx + 1 < len(lags) and
                                         abs(lags[idx + 1] - want) <= tol):
            n += 1
            continue
        if a == 0.0 and not skipped_zero:
            if not (lo < 0 < hi):
                return "zero inserted outside (min_lag, max_lag)"
            skipped_zero = True
            continue
        return "lag %r is not min_lag + %d * resolution (%r)" % (a, n, want)
    want = lo + n * res
    if want < hi - (n + 2) * tol0:
        return "grid stops at %r although %r <= max_lag %r" % (lags[-1], want, hi)
    return None
