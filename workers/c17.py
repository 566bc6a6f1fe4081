import os
import sys
import threading
import time

from common import *

RULE = ("2 to 5 threads, each with a program of 1 to 6 calls (creating series from sequences that give "
        "up the processor inside the conversion, loading files, estimates with every function, "
        "read-outs) on own or shared series; either a controlled scheduler, which hands over at a random "
        "thread at each line of the package's Python code and each element converted, or free threads "
        "with a minimal switch interval and larger series; every result against the same call alone; some "
        "programs once more in a forked process; "
        "non-trivial: at least two calls overlapped; distinct by sequence of hand-overs")
NCASES = {"quick": 3200, "thorough": 60000}
MIN = {"forks": 200, "controlled_schedules": 1500, "hand_overs": 100000, "overlapping_calls": 5000,
       "free_runs": 200, "shared_series_calls": 3000, "calls": 20000, "yields_in_conversion": 10000}
ASSUMPTIONS = ["native code runs with the interpreter lock held; interleavings inside it can only occur "
               "where it calls back into Python, or where it gives the lock up",
               "free runs are not reproducible in their schedule, only in their programs"]


def generate(rng, i, tier):
    free = i % 8 == 7
    n = rng.randint(2, 5)
    same = rng.random() < .3
    shared = None
    M = rng.choice([100, 400]) if free else rng.choice([2, 3, 5, 9])

    def series():
        t = gen.times(rng, M, rng.choice(["int", "irr", "irrdy", "gaps"]))[0]
        k = rng.choice([0, 0, 2, 3])
        v = [gen.values(rng, t, "gauss")[0] for _ in range(max(1, k))]
        return dict(t=t, v=v if k else v[0], nsets=k)
    shared = series()
    progs = []
    for _ in range(n):
        own = series() if not same else shared
        T = own["t"][-1] - own["t"][0]
        Ts = shared["t"][-1] - shared["t"][0]
        prog = []
        for _ in range(rng.randint(3, 6) if free else rng.randint(1, 4)):
            on = rng.choice(["own", "shared", "shared"])
            span = T if on == "own" else Ts
            lags = rng.choice([20, 60]) if free else rng.randint(2, 5)
            kind = rng.choice(["estimate", "estimate", "estimate", "create", "create", "file", "read",
                               "returned"])
            prog.append([kind, on, dict(min_lag=rng.choice([0.0, -span / 2]), max_lag=span,
                                        lag_resolution=span / lags,
                                        alpha=rng.choice([.1, 1.0, span])),
                         rng.choice(["natural", "fast"]),
                         rng.choice(["fractional", "gaussian", "fractional_squared"])])
            if rng.random() < .2:
                prog[-1][2] = dict(lag_resolution=span / lags)
        progs.append(dict(own=own, ops=prog))
    return dict(shared=shared, progs=progs, seed=rng.randrange(1 << 30), free=free)


class Sched(object):
    """At most one of the threads runs; at each yield point a random one goes on."""

    def __init__(self, n, rng):
        self.n, self.rng = n, rng
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.trace = []
        self.loose = False
        self.progress = 0

    def start(self):
        self.go[self.rng.choice(self.alive)].release()

    def wait(self, me):
        self.go[me].acquire()

    def hand_over(self, me):
        self.progress += 1
        if self.loose:
            time.sleep(0)
            return
        nxt = self.rng.choice(self.alive)
        self.trace.append(nxt)
        if nxt != me:
            self.go[nxt].release()
            self.go[me].acquire()

    def done(self, me):
        self.progress += 1
        self.alive.remove(me)
        if self.alive and not self.loose:
            nxt = self.rng.choice(self.alive)
            self.trace.append(nxt)
            self.go[nxt].release()

    def let_loose(self):
        """The running thread waits for something a stopped one holds: stop scheduling."""
        self.loose = True
        for s in self.go:
            s.release()


class Yielding(object):
    """A number that gives up the processor when it is converted."""

    def __init__(self, x, f):
        self.x, self.f = x, f

    def __float__(self):
        self.f()
        return self.x


def do(op, own, shared, conv, path):
    kind, on, p, sel, w = op
    data, S = own if on == "own" else shared
    if kind == "create":
        v = [[conv(x) for x in r] for r in data["v"]] if data["nsets"] else [conv(x) for x in data["v"]]
        S = SACF([conv(x) for x in data["t"]], v)
        return S.autocorrelation(selection_function=sel, weight_function=w, **p)
    if kind == "file":
        S = SACF(filename=path)
        return [S.data.timeseries(), S.data.data()[0], S.data.mean_data]
    if kind == "read":
        d = S.data
        return [d.timeseries(), d.normalised_timeseries(), d.mean_data, [d.median_time, d.max_time]] + \
            d.data() + d.normalised_data()
    if kind == "returned":
        a, b, c = S.autocorrelation(selection_function=sel, weight_function=w,
                                    return_correlator=True, **p)
        return [a, c.lag_timeseries()] + c.correlations() + [[c.alpha, c.min_lag, c.max_lag]]
    return S.autocorrelation(selection_function=sel, weight_function=w, **p)


def run(case, m):
    import random
    progs = case["progs"]
    n = len(progs)
    s = Scratch()
    path = s.write("d.csv", "".join("%r %r\n" % (a, b) for a, b in
                                    zip(case["shared"]["t"], rows(case["shared"])[0])).encode())
    try:
        mk = lambda d: (d, SACF(d["t"], d["v"]))
        plain = lambda x: x
        sh = mk(case["shared"])
        want = [[repr(do(op, mk(p["own"]), sh, plain, path)) for op in p["ops"]] for p in progs]
        shared = mk(case["shared"])
        owns = [mk(p["own"]) for p in progs]
        rng = random.Random(case["seed"])
        sched = None if case["free"] else Sched(n, rng)
        got = [[None] * len(p["ops"]) for p in progs]
        log = []        # (thread, +1 begin / -1 end): list.append is atomic
        conversions = [0] * n

        def thread(me):
            def handover():
                conversions[me] += 1
                if sched:
                    sched.hand_over(me)
                else:
                    time.sleep(0)
            conv = lambda x: Yielding(x, handover)

            def local(frame, event, arg):
                if event == "line":
                    sched.hand_over(me)
                return local

            def tracer(frame, event, arg):
                f = frame.f_code.co_filename
                return local if "sacf" in f and not f.startswith(HERE) else None
            if sched:
                sched.wait(me)
                sys.settrace(tracer)
            try:
                for q, op in enumerate(progs[me]["ops"]):
                    log.append((me, 1))
                    try:
                        got[me][q] = repr(do(op, owns[me], shared, conv, path))
                    except Exception as e:
                        got[me][q] = "%s: %s" % (type(e).__name__, e)
                    log.append((me, -1))
            finally:
                if sched:
                    sys.settrace(None)
                    sched.done(me)
        ts = [threading.Thread(target=thread, args=(a,)) for a in range(n)]
        old = sys.getswitchinterval()
        if not sched:
            sys.setswitchinterval(1e-6)
        for t in ts:
            t.daemon = True
            t.start()
        if sched:
            sched.start()
        quiet, seen = 0.0, -1
        for t in ts:
            while t.is_alive():
                t.join(.5 if quiet else 5.0)
                if not t.is_alive():
                    break
                if sched and sched.progress != seen:
                    quiet, seen = 0.0, sched.progress
                    continue
                quiet += .5
                if sched and not sched.loose and quiet > 2:
                    m.count("schedules_released")
                    sched.let_loose()
                if quiet > 300:
                    m.violate("concurrent calls wait for each other for ever", log=log[-20:])
                    return
        sys.setswitchinterval(old)
        active = 0
        over = 0
        for _, d in log:
            if d > 0 and active:
                over += 1
            active += d
        m.count("overlapping_calls", over)
        m.count("calls", sum(len(p["ops"]) for p in progs))
        m.count("shared_series_calls", sum(1 for p in progs for op in p["ops"] if op[1] == "shared"))
        m.count("yields_in_conversion", sum(conversions))
        if sched:
            m.count("controlled_schedules")
            m.count("hand_overs", len(sched.trace))
        else:
            m.count("free_runs")
        for a in range(n):
            for q in range(len(want[a])):
                if got[a][q] != want[a][q]:
                    m.violate("a concurrent call's result differs from the call alone", thread=a,
                              op=progs[a]["ops"][q], got=got[a][q][:300], want=want[a][q][:300],
                              schedule=sched.trace[:200] if sched else "free", log=log[:60])
                    return
        if case["seed"] % 6 == 0 and not in_child(case, m, want, owns, shared, path):
            return
        if over:
            m.seen(sched.trace if sched else case["seed"])
    finally:
        s.close()


def in_child(case, m, want, owns, shared, path):
    """The same calls in a forked process, on the objects it inherited, while this one goes on."""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = "died"
        try:
            out = "same"
            for a, p in enumerate(case["progs"]):
                for q, op in enumerate(p["ops"]):
                    got = repr(do(op, owns[a], shared, lambda x: x, path))
                    if got != want[a][q]:
                        out = "thread %d, call %d: %s instead of %s" % (a, q, got[:200],
                                                                        want[a][q][:200])
        except BaseException as e:
            out = "%s: %s" % (type(e).__name__, e)
        finally:
            os.write(w, out.encode()[:3000])
            os._exit(0)
    os.close(w)
    here = [[repr(do(op, owns[a], shared, lambda x: x, path)) for op in p["ops"]]
            for a, p in enumerate(case["progs"])]
    text = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        text += x
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    m.count("forks")
    if status or text != b"same":
        m.violate("a forked process gets other results", status=status, child=text.decode())
        return False
    if here != want:
        m.violate("results changed after a fork")
        return False
    return True


HERE = os.path.dirname(os.path.abspath(__file__))
