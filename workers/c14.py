from common import *

RULE = ("random interleavings of creating series (lists, numpy arrays, files) and correlators, changing "
        "and discarding inputs and returned lists, dropping references, collecting garbage, reusing the "
        "freed memory, and later calls; in the product build and in the AddressSanitizer one; "
        "non-trivial: a correlator was used after its series' last reference was dropped and collected, "
        "or an input or output was changed; distinct by series and order of events")
NCASES = {"quick": 4000, "thorough": 60000}
SHARE = {"asan": 0.4}
VARIANTS = ["rel", "asan"]
MIN = {"interpreters_ended": 40, "calls_repeated": 1000, "inputs_changed": 1500, "outputs_changed": 1500, "orphaned_correlators_used": 1500,
       "collections": 3000, "files_removed": 300}

ACTS = ["input", "output", "orphan", "iterator", "returned", "file", "shared"]


def generate(rng, i, tier):
    c = gen.case(rng, tier, budget=1500, big=False, M=rng.choice([1, 2, 3, 5, 8, 20, 60]),
                 nsets=rng.choice([0, 0, 1, 2, 3]))
    c["acts"] = [rng.choice(ACTS) for _ in range(rng.randint(1, 4))]
    c["errs"] = rng.random() < .3
    c["x"] = rng.randrange(1 << 30)
    c["w"] = rng.choice(["fractional", "gaussian"])
    return c


def collect(m):
    import gc
    gc.collect()
    gc.collect()
    m.count("collections")


def churn(case, rng):
    """Reuses memory that was freed."""
    M = len(case["t"])
    keep = []
    for _ in range(6):
        keep.append(SACF([float(i) * 3 for i in range(M)],
                         [[float(rng.randint(-9, 9)) for _ in range(M)]] * max(1, case["nsets"])))
    return keep


def scribble(x, rng):
    """Changes a sequence that was passed in or returned, in place."""
    if isinstance(x, np.ndarray):
        x[...] = -77.0
        return
    if not isinstance(x, list):
        return
    for a in x:
        if isinstance(a, (list, np.ndarray)):
            scribble(a, rng)
    if x and not isinstance(x[0], (list, tuple)):
        for i in range(len(x)):
            x[i] = -77.0
    r = rng.random()
    if r < .3:
        x.append(123.0)
    elif r < .6 and x:
        del x[0]
    elif r < .8:
        del x[:]


def snapshot(d):
    return (d.timeseries(), d.data(), d.errors(), d.mean_data, d.median_time, d.max_time,
            d.normalised_timeseries(), d.normalised_data())


def run(case, m):
    import random
    rng = random.Random(case["x"])
    rows_ = rows(case)
    M = len(case["t"])
    errs = [[.25] * M for _ in rows_] if case["errs"] else None
    ref = SACF(list(case["t"]), [list(r) for r in rows_])
    want = ref.autocorrelation(**case["p"])
    want_w = ref.autocorrelation(weight_function="gaussian", **case["p"])

    plain_ref = ref if not errs else SACF(list(case["t"]), [list(r) for r in rows_],
                                          [list(r) for r in errs])

    def expect(what, got, w=want):
        if not same_result(got, w):
            m.violate("changed: " + what, got=(got[0][:5], got[1][:3]), want=(w[0][:5], w[1][:3]),
                      acts=case["acts"])
            return False
        return True
    cont = case["cont"]
    interesting = False
    for act in case["acts"]:
        if act == "input":
            t = gen.materialise(list(case["t"]), cont, np)
            v = gen.materialise([list(r) for r in rows_] if case["nsets"] else list(rows_[0]), cont, np)
            a = [t, v]
            if errs:
                a.append([list(r) for r in errs] if case["nsets"] else list(errs[0]))
            S = SACF(*a)
            if rng.random() < .5:
                # nothing was asked of the series before its inputs change
                snap = repr(snapshot(plain_ref.data))
            else:
                snap = repr(snapshot(S.data))
                if rng.random() < .5:
                    S.autocorrelation(**case["p"])
            for x in a:
                scribble(x, rng)
            del a, t, v
            if rng.random() < .4:
                collect(m)
                keep = churn(case, rng)
            m.count("inputs_changed")
            interesting = True
            if repr(snapshot(S.data)) != snap:
                m.violate("a series changed with the sequences it was made of", container=cont)
                return
            if not expect("an estimate, after changing the inputs",
                          S.autocorrelation(**case["p"])):
                return
        elif act == "output":
            S = build(case)
            r = S.autocorrelation(return_correlator=True, **case["p"])
            d, corr = S.data, r[2]
            snap = repr(snapshot(d))
            for x in snapshot(d)[:4] + (d.normalised_timeseries(), d.normalised_data(), r[0], r[1],
                                        corr.lag_timeseries(), corr.correlations(), corr.values(),
                                        corr.normalised_timeseries()):
                scribble(x, rng)
            m.count("outputs_changed")
            interesting = True
            if repr(snapshot(d)) != snap:
                m.violate("a series changed with a list it had returned")
                return
            cc = corr.correlations()
            if not expect("a correlator's results, with lists it had returned",
                          (corr.lag_timeseries(), cc if len(cc) > 1 else cc[0])):
                return
            if not expect("an estimate, after changing returned lists",
                          S.autocorrelation(**case["p"])):
                return
            # the same call again, with the lists of the earlier ones changed but alive
            for w, q in ((want, {}), (want_w, dict(weight_function="gaussian"))):
                if rng.random() < .4:
                    S = build(case)
                q.update(case["p"])
                full = rng.random() < .3
                first = S.autocorrelation(return_correlator=full, **q)
                second = S.autocorrelation(return_correlator=full and rng.random() < .5, **q)
                for x in first[:2]:
                    scribble(x, rng)
                if not expect("an earlier result of the same call, after changing another",
                              second[:2], w):
                    return
                for x in second[:2]:
                    scribble(x, rng)
                if not expect("the result of a call, after changing those of the same call before",
                              S.autocorrelation(return_correlator=full, **q)[:2], w):
                    return
                m.count("calls_repeated")
        elif act in ("orphan", "shared", "returned"):
            if act == "orphan":
                corr = Correlator(build(case).data)
                SACF.set_up_correlation(corr, **case["p"])
                extra = []
            elif act == "shared":
                d = build(case).data
                extra = [Correlator(d) for _ in range(3)]
                corr = Correlator(d)
                SACF.set_up_correlation(corr, **case["p"])
                del d
                if rng.random() < .5:
                    extra = []
            else:
                corr = build(case).autocorrelation(return_correlator=True, **case["p"])[2]
                extra = []
            collect(m)
            keep = churn(case, rng)
            for _ in range(2):
                if case["w"] == "gaussian":
                    SACF.find_correlation(corr, "natural", "gaussian")
                else:
                    corr.calculateStandardCorrelation()
                cc = corr.correlations()
                got = (corr.lag_timeseries(), cc if len(cc) > 1 else cc[0])
                if not expect("a correlator's results, once its series was dropped", got,
                              want_w if case["w"] == "gaussian" else want):
                    return
            if not same_list(corr.normalised_timeseries(), ref.data.normalised_timeseries()) or \
                    not same_rows(corr.values(), ref.data.data()):
                m.violate("a correlator's series changed once other references were dropped")
                return
            m.count("orphaned_correlators_used")
            interesting = True
            del keep, extra
        elif act == "iterator":
            corr = Correlator(build(case).data)
            it = CorrelationIterator(0.0, corr.N_datasets)
            corr.naturalSelectionFunctionIdx(it)
            corr.deltaT(it)
            corr.getFractionWeights(it)
            corr.findCorrelation(it)
            a = repr((it.k, it.correlation, it.selection_indices, it.weights))
            for x in (it.correlation, it.selection_indices, it.weights):
                scribble(x, rng)
            del corr
            collect(m)
            keep = churn(case, rng)
            if repr((it.k, it.correlation, it.selection_indices, it.weights)) != a:
                m.violate("an iterator changed once its correlator was dropped or its lists changed")
                return
        else:
            s = Scratch()
            try:
                path = s.write("d.csv", "".join("%r,%r\n" % (a, b) for a, b in
                                                zip(case["t"], rows_[0])).encode())
                S = SACF(filename=path)
                snap = repr(snapshot(S.data))
                if rng.random() < .5:
                    s.write("d.csv", b"9,9\n8,8\n")
                os.unlink(path)
            finally:
                s.close()
            m.count("files_removed")
            S.autocorrelation(**case["p"])
            if repr(snapshot(S.data)) != snap:
                m.violate("a series changed with the file it was read from")
                return
    if interesting:
        m.seen(case["t"], case["v"], case["acts"], case["x"])


EXITS = [
    "keep = [S, S.data, r[2], c, it]",
    "import gc; a = {}; a['a'] = a; a['b'] = [S, r, c]; del a, S, r, c; gc.collect()",
    "import atexit; atexit.register(lambda: (c.calculateStandardCorrelation(), print(c.correlations()[0][0])))",
    "del S, r; import sys; sys.modules['sacf'].kept = (c, it); c.clearCorrelation()",
    "class A:\n    def __del__(self): self.c.calculateStandardCorrelation()\na = A(); a.c = c; a.me = a",
    "import threading; t = threading.Thread(target=lambda: S.autocorrelation(weight_function='gaussian')); t.start()",
]
SCRIPT = """
from sacf import SACF
from sacf.correlator import Correlator, CorrelationIterator
S = SACF([0.0, 1.0, 2.5, 4.0], [[1.0, 2.0, 0.0, 3.0], [2.0, 1.0, 1.0, 5.0]])
r = S.autocorrelation(return_correlator=True)
c = Correlator(S.data)
it = CorrelationIterator(1.0, 2)
c.naturalSelectionFunctionIdx(it)
c.calculateStandardCorrelation()
"""


def finish(m):
    """Interpreters that end with series and correlators alive."""
    import subprocess
    import sys
    for e in EXITS:
        p = subprocess.run([sys.executable, "-c", SCRIPT + e], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        m.count("interpreters_ended")
        if p.returncode:
            m.violate("an interpreter did not end properly with series alive", ending=e,
                      status=p.returncode, output=p.stdout[-1500:])
            return
