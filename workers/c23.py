import ctypes
import errno
import gc
import signal
import sys
import time

from common import *

RULE = ("one operation (construction in every form, loading, estimates on both paths, re-runs, single "
        "steps, clean-ups and read-outs of a correlator with a history) is made to fail at each of many points: "
        "an allocation of series or lag buffers, an interrupt at a line of the Python part, an element "
        "or length of a passed sequence that raises (or calls back into the library), a read of the "
        "file (which may also arrive through a pipe in pieces); then the state is checked and the operation repeated without a fault; non-trivial: at "
        "least one fault was injected and delivered; distinct by operation, fault points and series")
DRIVER = "faults"
NCASES = {"quick": 2600, "thorough": 30000}
MIN = {"allocation_faults": 9000, "interrupts": 1800, "sequence_faults": 900, "callbacks": 400,
       "reads_armed": 1500, "pipes": 60, "repeated_right": 15000, "leak_checks": 600,
       "histories_checked": 2500}
ASSUMPTIONS = ["allocation failure is injected into requests of at least 100 bytes, which only series and "
               "lag buffers make here; smaller ones include pybind11's own, outside this project",
               "interrupts arrive between lines of sacf.py, as Python delivers them"]

MAKE = ["flat", "rows", "errors", "errors_rows", "sacf", "file"]
USE = ["estimate", "gaussian", "squared", "fast", "returned"]
HIST = ["rerun", "rerun_python", "clean", "clean_grow", "clear", "add", "add_far", "step"]
READ = ["data", "errors_read", "timeseries", "lags", "correlations", "values"]


class Injected(BaseException):
    pass


def generate(rng, i, tier):
    M = rng.choice([16, 20, 20, 33, 60, 110])
    t, _ = gen.times(rng, M)
    n = rng.choice([1, 1, 2, 3])
    v = [gen.values(rng, t, rng.choice(["gauss", "smallint", "offset"]))[0] for _ in range(n)]
    kind = ["alloc", "alloc", "alloc", "interrupt", "sequence", "read"][i % 6]
    T = t[-1] - t[0]
    p = dict(min_lag=-T * rng.choice([0, .5, 1]), max_lag=T * rng.choice([.5, 1, 1.2]),
             lag_resolution=T / rng.choice([15.5, 20.5, 40.5]))
    if rng.random() < .3:
        p["alpha"] = T / rng.randint(2, 50)
    ops = {"alloc": MAKE + USE + HIST * 2 + READ, "interrupt": ["sacf", "sacf_file"] + USE + HIST[:2],
           "sequence": MAKE[:5], "read": ["file"]}[kind]
    return dict(t=t, v=v, p=p, kind=kind, op=rng.choice(ops), x=rng.randrange(1 << 30),
                before=rng.choice(["fresh", "run", "run", "ran_twice", "cleaned"]))


class Lib(object):
    def __init__(self):
        lib = ctypes.CDLL(None)
        L = ctypes.c_long
        for name, args in (("verif_arm_new", [L, L]), ("verif_disarm_new", []), ("verif_new_seen", []),
                           ("verif_live_blocks", []), ("verif_live_bytes", []),
                           ("verif_arm_read", [L, L, L, ctypes.c_int, ctypes.c_int]),
                           ("verif_disarm_read", []), ("verif_read_calls", [])):
            f = getattr(lib, name)
            f.argtypes = args
            f.restype = L
            setattr(self, name[6:], f)


def setup(m):
    m.lib = Lib()
    # pybind11's table of live objects grows outside any try block; let it reach its size now
    live = [CorrelationIterator(0.0, 0) for _ in range(30000)]
    del live
    gc.collect()
    m.scratch = Scratch()


def finish(m):
    m.scratch.close()


def snapshot(d):
    return (d.timeseries(), d.data(), d.errors(), d.mean_data, d.median_time, d.max_time,
            d.normalised_timeseries(), d.normalised_data(), d.N_datasets, d.M_datapoints)


def result(corr):
    c = corr.correlations()
    return (corr.lag_timeseries(), c)


class World(object):
    """What an operation works on; `go` performs it and returns something comparable."""

    def __init__(self, case, m):
        self.case = case
        self.t, self.v, self.p = case["t"], case["v"], case["p"]
        self.e = [[.5] * len(self.t) for _ in self.v]
        self.S = SACF(self.t, self.v)
        self.S2 = SACF(self.t, self.v, self.e)
        self.path = None
        if case["op"] in ("file", "sacf_file"):
            self.path = m.scratch.write("s.txt", "".join(
                "%r,%s%r,%r\n" % (a, " " * (case["x"] % 5 == 0) * 150, b, .5)
                for a, b in zip(self.t, self.v[0])).encode())

    def correlator(self):
        """A correlator with the history the case asks for."""
        c = Correlator(self.S.data)
        SACF.set_up_correlation(c, **self.p)
        b = self.case["before"]
        if b != "fresh":
            c.calculateStandardCorrelation()
        if b == "ran_twice":
            # a shorter run after a longer one
            hi, c.max_lag = c.max_lag, c.min_lag + c.lag_resolution * 13.5
            c.calculateStandardCorrelation()
            c.max_lag = hi
        elif b == "cleaned":
            c.cleanCorrelationData(14)
        return c

    def make(self, t=None, v=None, e=None):
        op = self.case["op"]
        t = self.t if t is None else t
        v = self.v if v is None else v
        e = self.e if e is None else e
        if op == "flat":
            return snapshot(DataStructure(t, v[0]))
        if op == "rows":
            return snapshot(DataStructure(t, v))
        if op == "errors":
            return snapshot(DataStructure(t, v[0], e[0]))
        if op == "errors_rows":
            return snapshot(DataStructure(t, v, e))
        if op == "sacf":
            return snapshot(SACF(t, v, e).data)
        if op == "sacf_file":
            return snapshot(SACF(filename=self.path).data)
        return snapshot(DataStructure(self.path))

    def use(self):
        op = self.case["op"]
        if op == "estimate":
            return self.S.autocorrelation(**self.p)
        if op == "returned":
            return self.S.autocorrelation(return_correlator=True, **self.p)[:2]
        if op == "fast":
            return self.S.autocorrelation(selection_function="fast", **dict(self.p, min_lag=0.0))
        return self.S.autocorrelation(
            weight_function={"gaussian": "gaussian", "squared": "fractional_squared"}[op], **self.p)

    def hist(self, c):
        op = self.case["op"]
        if op == "rerun":
            c.calculateStandardCorrelation()
        elif op == "rerun_python":
            SACF.find_correlation(c, "natural", "fractional")
        elif op == "clean":
            c.cleanCorrelationData(13)
        elif op == "clean_grow":
            c.cleanCorrelationData(90)
        elif op == "clear":
            c.clearCorrelation()
        else:
            it = CorrelationIterator(c.lag_resolution, c.N_datasets)
            c.naturalSelectionFunctionIdx(it)
            c.deltaT(it)
            c.getFractionWeights(it)
            c.findCorrelation(it)
            if op == "add":
                c.addCorrelationData(it, 0)
            elif op == "add_far":
                c.addCorrelationData(it, 100)
        return result(c)

    def read(self, c):
        op = self.case["op"]
        if op == "data":
            return self.S.data.data()
        if op == "errors_read":
            return self.S2.data.errors()
        if op == "timeseries":
            return self.S.data.timeseries()
        if op == "lags":
            return c.lag_timeseries()
        if op == "values":
            return c.values()
        return c.correlations()


def points(rng, n, most):
    if n <= most:
        return list(range(n))
    return sorted(set([0, 1, n - 1, n - 2] + [rng.randrange(n) for _ in range(most - 4)]))


def run(case, m):
    import random
    rng = random.Random(case["x"])
    w = World(case, m)
    before = repr((snapshot(w.S.data), snapshot(w.S2.data)))
    full = Correlator(w.S.data)
    SACF.set_up_correlation(full, **w.p)
    full.calculateStandardCorrelation()
    w.full = repr(result(full))
    done = {"alloc": alloc, "interrupt": interrupt, "sequence": sequence, "read": read}[case["kind"]](
        case, m, w, rng)
    if repr((snapshot(w.S.data), snapshot(w.S2.data))) != before:
        m.violate("a failed call changed the series it worked on", operation=case["op"])
    elif done:
        m.seen(case["kind"], case["op"], case["t"], case["v"], case["x"])


def after_failure(case, m, w, c, what):
    """A correlator whose operation failed: consistent, and as good as new for the next run."""
    lags, corr = result(c)
    if any(len(r) != len(lags) for r in corr):
        m.violate("after a failed call a correlator reports %d lags and %s correlations" % (
            len(lags), [len(r) for r in corr]), fault=what, operation=case["op"])
        return False
    # the settings are those of the case again before the next run
    SACF.set_up_correlation(c, **w.p)
    if w.n_after % 2:
        c.calculateStandardCorrelation()
    else:
        SACF.find_correlation(c, "natural", "fractional")
    w.n_after += 1
    if repr(result(c)) != w.full:
        # the two implementations may differ in rounding
        a, b = result(c), eval(w.full, dict(nan=NAN, inf=INF))
        if w.n_after % 2 or not close(a, b):
            m.violate("after a failed call the same correlator gives another result", fault=what,
                      operation=case["op"], got=a[0][:4] + a[1][0][:4], want=b[0][:4] + b[1][0][:4])
            return False
    m.count("histories_checked")
    return True


def close(a, b):
    return same_list(a[0], b[0]) and len(a[1]) == len(b[1]) and \
        all(len(x) == len(y) and all(same(p, q) or abs(p - q) <= 1e-9 for p, q in zip(x, y))
            for x, y in zip(a[1], b[1]))


def operation(case, w):
    """(function of a correlator or None, needs a correlator)"""
    op = case["op"]
    if op in MAKE or op == "sacf_file":
        return (lambda c: w.make()), False
    if op in USE:
        return (lambda c: w.use()), False
    if op in HIST:
        return w.hist, True
    return w.read, op in ("lags", "values", "correlations")


def settle(m):
    last = None
    for _ in range(12):
        gc.collect()
        now = (m.lib.live_blocks(), m.lib.live_bytes())
        if now == last:
            break
        last = now
    return last


LEAST = 100


def alloc(case, m, w, rng):
    go, needs = operation(case, w)
    w.n_after = 0
    c = w.correlator() if needs else None
    want = repr(go(c))
    c = w.correlator() if needs else None
    m.lib.arm_new(-1, LEAST)
    x = go(c)
    m.lib.disarm_new()
    n = m.lib.new_seen()
    x = c = None
    if n == 0:
        m.count("without_allocations")
        return False
    settle(m)
    for k in points(rng, n, 24)[:3]:
        one_alloc(case, m, w, go, needs, want, k, count=False)   # whatever is set up once
    base = settle(m)
    hit = 0
    for k in points(rng, n, 24):
        r = one_alloc(case, m, w, go, needs, want, k)
        if r is None:
            return False
        hit += r
    left = settle(m)
    m.count("leak_checks")
    if left[0] > base[0]:
        m.violate("failed calls leave memory behind: %d blocks, %d bytes after %d failures" % (
            left[0] - base[0], left[1] - base[1], hit), operation=case["op"])
        return False
    return hit > 0


def one_alloc(case, m, w, go, needs, want, k, count=True):
    c = w.correlator() if needs else None
    x = err = None
    m.lib.arm_new(k, LEAST)
    try:
        x = go(c)
    except MemoryError:
        err = "MemoryError"
    except Exception as e:
        err = type(e).__name__
    failed = m.lib.disarm_new()
    if not failed:
        return 0
    if count:
        m.count("allocation_faults")
    if err is None:
        # the operation may have found another way, but not to another result
        if repr(x) != want:
            m.violate("a failed allocation was swallowed: the call returned something else",
                      operation=case["op"], allocation=k)
            return None
    elif err != "MemoryError" and not (case["op"] == "file" and err == "BadDataFileReadException"):
        m.violate("a failed allocation raised %s" % err, operation=case["op"], allocation=k)
        return None
    if needs:
        if not after_failure(case, m, w, c, "allocation %d" % k):
            return None
    elif repr(go(c)) != want:
        m.violate("after a failed call the same call gives another result", operation=case["op"],
                  allocation=k)
        return None
    m.count("repeated_right")
    return 1


def interrupt(case, m, w, rng):
    go, needs = operation(case, w)
    w.n_after = 0
    want = repr(go(w.correlator() if needs else None))
    source = sys.modules["sacf.sacf"].__file__

    kinds = [Injected]
    for base in (KeyboardInterrupt, MemoryError, SystemExit):
        class Other(base):
            pass
        kinds.append(Other)
    kinds = tuple(kinds)

    def lines(at, c):
        """Runs the operation, interrupted at the at-th line; returns (result, lines seen)."""
        n = [0]

        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == at:
                    raise kind()
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename == source else None
        sys.settrace(trace)
        try:
            return repr(go(c)), n[0]
        finally:
            sys.settrace(None)
    total = lines(0, w.correlator() if needs else None)[1]
    if total == 0:
        m.count("without_python_lines")
        return False
    hit = 0
    for at in points(rng, total, 12):
        c = w.correlator() if needs else None
        kind = rng.choice(kinds + (kinds[1],) * 4)
        try:
            if lines(at + 1, c)[1] <= at:
                m.count("lines_not_reached")   # PyPy does not report quite the same lines each time
                continue
            m.violate("an interrupt was swallowed", operation=case["op"], line_event=at,
                      exception=kind.__mro__[1].__name__)
            return False
        except BaseException:
            pass        # whatever it was turned into
        hit += 1
        m.count("interrupts")
        if needs:
            if not after_failure(case, m, w, c, "interrupt %d" % at):
                return False
        elif repr(go(c)) != want:
            m.violate("after an interrupted call the same call gives another result",
                      operation=case["op"], line_event=at)
            return False
        m.count("repeated_right")
    return hit > 0


class Seq(object):
    """A sequence that raises at element `at` (or in __len__)."""

    def __init__(self, data, at):
        self.data, self.at = data, at

    def __len__(self):
        if self.at == "len":
            raise Injected()
        return len(self.data)

    def __getitem__(self, i):
        if self.at == i:
            raise Injected()
        return self.data[i]


class Num(object):
    """A number that does something else when it is read."""

    def __init__(self, x, action):
        self.x, self.action = x, action

    def __float__(self):
        self.action()
        return self.x


def sequence(case, m, w, rng):
    want = repr(w.make())
    M = len(w.t)
    hit = 0
    for _ in range(8):
        t, v, e = list(w.t), [list(r) for r in w.v], [list(r) for r in w.e]
        which = rng.choice(["t", "v", "v"] + (["e"] if case["op"] not in ("flat", "rows") else []))
        target = t if which == "t" else (v if which == "v" else e)[0]
        how = rng.choice(["seq", "seq", "raise", "estimate", "collect", "truncate"])
        calls = [0]
        if how == "seq":
            bad = Seq(target, rng.choice([0, M - 1, rng.randrange(M), "len"]))
        else:
            i = rng.randrange(M)

            def act(target=target):
                calls[0] += 1
                if how == "raise":
                    raise Injected()
                if how == "estimate":
                    w.S.autocorrelation(**w.p)
                elif how == "collect":
                    gc.collect()
                elif calls[0] == 1:
                    del target[M // 2:]
            bad = target
            bad[i] = Num(bad[i], act)
        if which == "t":
            t = bad
        elif which == "v":
            v[0] = bad
        else:
            e[0] = bad
        out = None
        try:
            out = repr(w.make(t, v, e))
        except BaseException as x:
            out = None
            name = type(x).__name__
            if not isinstance(x, (Injected, Exception)):
                raise
        if how in ("seq", "raise"):
            m.count("sequence_faults")
            if out is not None:
                m.violate("a series was made although its %s could not be read" % which,
                          how=how, operation=case["op"])
                return False
        else:
            if calls[0]:
                m.count("callbacks")
            if out is not None and how != "truncate" and out != want:
                m.violate("reading its input called back into the library, and the series changed",
                          how=how, operation=case["op"])
                return False
        hit += 1
        bad = t = v = e = None
        if repr(w.make()) != want:
            m.violate("after a failed construction the same construction gives another series",
                      how=how, operation=case["op"])
            return False
        m.count("repeated_right")
    return hit > 0


def through_fifo(m, w, data, piece, rng):
    """The series of a file whose content another process delivers piece by piece."""
    path = os.path.join(m.scratch.dir, "fifo")
    os.mkfifo(path)
    sys.stdout.flush()
    pause = rng.choice([0, .0002])
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            signal.alarm(120)
            fd = os.open(path, os.O_WRONLY)
            for i in range(0, len(data), piece):
                os.write(fd, data[i:i + piece])
                if pause:
                    time.sleep(pause)
            os.close(fd)
            # a reader that opens the pipe again finds it empty, and does not wait for ever
            while True:
                time.sleep(.05)
                try:
                    os.close(os.open(path, os.O_WRONLY | os.O_NONBLOCK))
                except OSError:
                    pass
        finally:
            os._exit(0)
    old, w.path = w.path, path
    try:
        return repr(w.make())
    except Exception as x:
        return "raised %s" % type(x).__name__
    finally:
        w.path = old
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.unlink(path)


def read(case, m, w, rng):
    want = repr(w.make())
    size = os.path.getsize(w.path)
    if rng.random() < .25:
        # more than a buffer
        n = rng.choice([900, 3000])
        t = [i + .25 for i in range(n)]
        text = "".join("%r %r\n" % (x, (x * 37) % 11) for x in t)
        w.path = m.scratch.write("l.txt", text.encode())
        want = repr(w.make())
        size = len(text)
    inode = os.stat(w.path).st_ino
    hit = 0
    if rng.random() < .5:
        with open(w.path, "rb") as f:
            data = f.read()
        got = through_fifo(m, w, data, rng.choice([1, 7, 100, 5000]) if len(data) < 3000 else
                           rng.choice([100, 4096, 70000]), rng)
        if got != want:
            m.violate("a file that arrives through a pipe gives another series", got=got[:300])
            return False
        m.count("pipes")
        hit += 1
    for _ in range(8):
        r = rng.random()
        most = rng.choice([0, 0, 1, 2, 3, 7, 13, 100, 4095])
        after = rng.choice([0, 1, size // 2, size - 1, size, rng.randrange(size)])
        out = name = None
        if r < .35:
            m.lib.arm_read(inode, most, 0, 0, 0)
        elif r < .5:
            m.lib.arm_read(inode, most, after, errno.EINTR, 1)
        else:
            m.lib.arm_read(inode, most, after, rng.choice([errno.EIO, errno.ESTALE, errno.EISDIR]),
                           rng.choice([0, 1]))
        try:
            out = repr(w.make())
        except Exception as x:
            name = type(x).__name__
        calls, failed = m.lib.read_calls(), m.lib.disarm_read()
        m.count("reads_armed")
        if not calls:
            m.count("reads_not_seen")
            continue
        if r < .5:
            m.count("short_reads")
            if name and not (failed and name == "BadDataFileReadException"):
                m.violate("a file delivered in pieces raised %s" % name, pieces=most)
                return False
            if out is not None and out != want:
                m.violate("a file delivered in pieces gives another series", pieces=most)
                return False
        elif failed:
            m.count("read_faults")
            if name is None and out != want:
                m.violate("a file that could not be read to its end gave a series", failed_after=after,
                          size=size)
                return False
            if name not in (None, "BadDataFileReadException"):
                m.violate("a file that could not be read raised %s" % name, failed_after=after)
                return False
        hit += 1
        if repr(w.make()) != want:
            m.violate("after a failed load the same file gives another series")
            return False
        m.count("repeated_right")
    return hit > 0
