"""Helpers shared by the property modules (PyPy side)."""
import math
import os
import sys
import tempfile

import numpy as np

import sacf
import sacf.correlator
import sacf.datastructure
from sacf import SACF
from sacf.correlator import CorrelationIterator, Correlator
from sacf.datastructure import (BadDataFileReadException, BadDataInputException, DataStructure,
                                EmptyDataStructureException)

import gen
import model

INF = float("inf")
NAN = float("nan")


def build(case, errors=None):
    c = case.get("cont", "list")
    args = [gen.materialise(case["t"], c, np), gen.materialise(case["v"], c, np)]
    if errors is not None:
        args.append(gen.materialise(errors, c, np))
    return SACF(*args)


def rows(case):
    return case["v"] if case["nsets"] else [case["v"]]


def as_rows(corr, n):
    """The returned correlations as one list per dataset."""
    return [corr] if n <= 1 else corr


def effective(case):
    """(tn, lo, hi, res, alpha) that the call's documentation promises."""
    t = case["t"]
    tn = model.elapsed(t)
    lo, hi, res = model.grid_default(tn)
    p = case.get("p", {})
    lo = p.get("min_lag", lo)
    hi = p.get("max_lag", hi)
    res = p.get("lag_resolution", res)
    alpha = p.get("alpha", model.median_elapsed(tn))
    return tn, lo, hi, res, alpha


def same(a, b):
    """Equal floats, NaN equal to NaN."""
    return a == b or (a != a and b != b)


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same_rows(a, b):
    return len(a) == len(b) and all(same_list(x, y) for x, y in zip(a, b))


def same_result(a, b):
    """Bitwise equal (lags, correlations), whatever the shape."""
    if not same_list(a[0], b[0]):
        return False
    ca, cb = a[1], b[1]
    na = bool(ca) and isinstance(ca[0], list)
    nb = bool(cb) and isinstance(cb[0], list)
    if na != nb:
        return False
    return same_rows(ca, cb) if na else same_list(ca, cb)


def pick(rng_key, n, k):
    """k positions out of range(n), always with both ends, spread deterministically."""
    if n <= k:
        return range(n)
    out = set([0, n - 1])
    x = rng_key * 2654435761 % (1 << 32)
    while len(out) < k:
        x = (x * 1103515245 + 12345) % (1 << 31)
        out.add((x >> 8) % n)
    return sorted(out)


class Scratch(object):
    """A file inside a scratch directory that is removed again."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")

    def write(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def close(self):
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)


def compare_estimates(m, case, lags, corr, weight="fractional", selection="natural",
                      lag_filter=None, work=250000, key=0):
    """Compares the returned correlations with the model at as many lags as the work allows."""
    tn, lo, hi, res, alpha = effective(case)
    if not alpha > 0:
        m.count("skipped:alpha-not-positive")
        return 0
    data = rows(case)
    series = [model.Series(v) for v in data]
    cr = as_rows(corr, len(data))
    if len(cr) != len(data) or any(len(c) != len(lags) for c in cr):
        m.violate("wrong number of correlations", lags=len(lags), shape=[len(c) for c in cr])
        return 0
    idx = [i for i in range(len(lags)) if lag_filter is None or lag_filter(lags[i])]
    budget = max(12, work // (len(tn) * max(1, len(data))))
    n = 0
    for q in pick(key or len(lags), len(idx), budget):
        i = idx[q]
        k = lags[i]
        want, amb = model.estimate(tn, series, k, alpha, weight, selection)
        if amb:
            m.count("ambiguous_lags")
        for j, (val, tol) in enumerate(want):
            if series[j].has_nan or tol is None:
                m.count("skipped:degenerate-series")
                continue
            got = cr[j][i]
            n += 1
            if not abs(got - val) <= tol:
                m.violate("correlation differs from the definition", lag=k, dataset=j, got=got,
                          want=val, tolerance=tol, selection=selection, weight=weight,
                          alpha=alpha, params=case.get("p"), M=len(tn))
                return n
    m.count("lag_values_compared", n)
    return n
