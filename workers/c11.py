from common import *

RULE = ("random files: rows with 2 to 6 fields in many number formats and separators, mixed with "
        "comments, titles, blank lines, lines whose first or second field is missing, empty or not a "
        "number, both line endings, with and without a last one, in the usual locale and in one with decimal "
        "commas; non-trivial: at least one row was "
        "expected and the file was compared; distinct by content")
DRIVER = "locales"
NCASES = {"quick": 30000, "thorough": 500000}
MIN = {"rows": 100000, "lines_to_skip": 30000, "files_with_errors": 5000, "errors_missing": 3000,
       "files_without_rows": 500, "missing_files": 100, "estimates_compared": 3000, "crlf": 3000}

NOT_NUMBERS = ["abc", "x1", "2abc", "2020-01-01", "--", "1e", "nan", "NaN", "inf", "-", "+", ".",
               "12:30", ".e3", "1e3.5", "1f", "1L", "1d5", "1D5", "+-1", "1E", "1e+", "1e-", "0b1", "1'000", "\u22121", "\u0663",
               "1p3", "0x1p3", "1-", "1+", "--1", "5%", "$5", "(1)", "1\\", "infinity", "-inf", "NAN(1)", "nan0", "TRUE", "\"1\"", "1;2", "1.2.3", "n/a", "None", "0x10", "e5", "3#", "1_000"]
SEPS = [",", ",", ", ", " , ", "\t", " ", "   ", " \t", ",\t", "\t,"]


def number(rng, x=None):
    """(text, value): a decimal number in one of the usual formats."""
    if x is None:
        x = rng.choice([rng.gauss(0, 1), rng.uniform(-1e4, 1e4), float(rng.randint(-99, 99)),
                        rng.gauss(0, 1) * 10 ** rng.randint(-12, 12), 0.0])
    r = rng.random()
    if x == 0.0 and r < .15:
        s = rng.choice(["0e0", "-0", "0.e5", ".0", "1e-400", "-1e-5000", "0" * 40, "0e999", "000.000E-7"])
    elif r < .02:
        # the same number with its point elsewhere
        q = rng.randint(1, 60)
        s = "%s0." % ("-" if x < 0 else "") + "0" * q + ("%.16e" % abs(x)).replace(".", "").split("e")[0] + "e%+d" % (
            int(("%.16e" % x).split("e")[1]) + q + 1)
    elif r < .4:
        s = repr(x)
    elif r < .5:
        s = "%.3f" % x
    elif r < .6:
        s = "%.8e" % x
    elif r < .65:
        s = "%G" % x
    elif r < .7:
        s = "%+.2f" % x
    elif r < .8:
        s = "%d" % x
    elif r < .84:
        s = "%d." % x
    elif r < .88:
        s = ("%.4f" % (x - int(x))).replace("0.", ".", 1)
    elif r < .92:
        s = "%.25f" % x
    elif r < .96:
        s = "00%d.50" % abs(int(x))
    else:
        s = "%.17g" % x
    return s, float(s)


def generate(rng, i, tier):
    """A file as a list of [line text, expected row or None]."""
    r = rng.random()
    n = rng.randint(0, 3) if r < .15 else rng.randint(2, 25) if r < .97 else \
        rng.randint(200, 1500 if tier == "quick" else 6000)
    style = rng.choice(SEPS + [None, None])
    ncol = rng.choice([2, 2, 3, 3, 3, 4, 6])
    clean = rng.random() < .3
    lead = rng.random() < .3
    x = rng.choice([0.0, 2457000.5, -3.0])
    lines = []

    def sep():
        return style or rng.choice(SEPS)
    if rng.random() < .3:
        lines.append([rng.choice(["time,flux,err", "# t x e", "Time\tMag", "t x", "#1,2,3",
                                  "t,1,2", "\"t\",\"x\""]), None])
    for _ in range(n):
        r = rng.random()
        if not clean and r < .002:
            # many lines in a row without anything to read
            k = rng.choice([30, 100, 300, 1500])
            lines += [[rng.choice(["", "#", "# 1,2", "a,b", ",", "1,"]), None]] * k
        r = rng.random()
        if not clean and r < .06:
            lines.append(["#" + rng.choice(["", " 1 2 3", "1,2,3", " comment"]), None])
        elif not clean and r < .1:
            lines.append([rng.choice(["", " ", "\t", ",", ",,", " , "]), None])
        elif not clean and r < .14:
            # first or second field is no number
            f = [number(rng)[0] for _ in range(ncol)]
            f[rng.randrange(2)] = rng.choice(NOT_NUMBERS)
            lines.append([sep().join(f), None])
        elif not clean and r < .17:
            lines.append([number(rng)[0] + rng.choice(["", ",", " ", ", "]), None])
        elif not clean and r < .2:
            f = [number(rng)[0] for _ in range(max(3, ncol))]
            f[rng.randrange(2)] = ""
            lines.append([rng.choice([",", ", ", " ,"]).join(f), None])
        else:
            x += rng.choice([1.0, .5, rng.uniform(.01, 3)])
            if not clean and rng.random() < .02:
                x -= 5
            k = ncol if clean or rng.random() < .9 else rng.choice([2, 3, 4])
            f = [(repr(x), x) if rng.random() < .8 else number(rng, x)]
            f += [number(rng) for _ in range(k - 1)]
            row = [f[0][1], f[1][1]]
            text = [a for a, _ in f]
            if k > 2:
                r2 = rng.random()
                if not clean and r2 < .06:
                    text[2] = rng.choice(NOT_NUMBERS)
                    row.append(None)
                elif not clean and r2 < .1:
                    text[2] = ""
                    row.append(None)
                else:
                    row.append(f[2][1])
            else:
                row.append(None)
            if "" in text:
                s = ",".join(text)
            elif style:
                s = style.join(text)
            else:
                s = text[0]
                for a in text[1:]:
                    s += sep() + a
            if lead and rng.random() < .5:
                s = rng.choice([" ", "\t", "  "]) + s
            if not clean and rng.random() < .1:
                s += rng.choice([" ", "\t", "  ", ",", " ,"])
            lines.append([s, row])
    return dict(lines=lines, eol=rng.choice(["\n", "\n", "\r\n"]), last=rng.random() < .8,
                how=rng.choice(["SACF", "SACF", "DataStructure"]), name=rng.choice(
                    ["data.txt", "a b.csv", "données.dat"]))


def long_file(n, cols, eol, gap):
    out = []
    for i in range(n):
        row = [i * .25, (i * 7919 % 1000) / 8.0 - 50, i % 13 / 4.0][:cols]
        out.append([("%.2f %.3f %.2f" if cols == 3 else "%.2f %.3f") % tuple(row),
                    row + [None] * (3 - cols)])
        if gap and i % gap == gap - 1:
            out.append(["# %d" % i, None])
    return dict(lines=out, eol=eol, last=bool(gap), how="SACF", name="long.txt")


def runs_of(text, n):
    """Rows before, between and after n lines to skip."""
    out = []
    for i in range(4):
        if i:
            out += [[text, None]] * n
        out += [["%r,%r,%r" % (i + x, x * i, .5), [i + x, x * i, .5]] for x in (0.0, .25, .5)]
    return dict(lines=[[text, None]] * (n // 2) + out + [[text, None]] * n, eol="\n", last=True,
                how="SACF", name="runs.txt")


def fixed(tier):
    # one long line, numbers and comments among them
    wide = [["%r %r %r " % (float(i), i / 3.0, i / 7.0) + " ".join(["123.456"] * 3000),
             [float(i), i / 3.0, i / 7.0]] for i in range(3)]
    wide.insert(1, ["# " + "x" * 100000, None])
    pad = [[" " * 40000 + "%r,%s%r" % (float(i), " " * 30000, i + .5), [float(i), i + .5, None]]
           for i in range(3)]
    return [long_file(70000, 2, "\n", 0), long_file(140001, 3, "\r\n", 1000),
            long_file(1100000, 2, "\n", 0),
            long_file(4097, 3, "\n", 5)] + \
           [dict(lines=x, eol="\n", last=l, how="DataStructure", name="wide.txt")
            for x in (wide, pad) for l in (True, False)] + \
           [runs_of(x, n) for x in ("", " ", "#", "# 1 2 3", "a,b,c", "1,", ",", "1,x")
            for n in (70, 1030, 5000)] + \
           [dict(lines=[], eol="\n", last=False, how=h, name="empty.txt")
            for h in ("SACF", "DataStructure")] + \
           [dict(missing=True, how=h, name=n, lines=[], eol="\n", last=False)
            for h in ("SACF", "DataStructure") for n in ("nothing.txt", "no/such/dir/x.csv", ".")] * 30


def load(case, path):
    return SACF(filename=path).data if case["how"] == "SACF" else DataStructure(path)


def setup(m):
    m.comma = False
    if os.environ.get("VERIF_LOCALE"):
        import locale
        locale.setlocale(locale.LC_ALL, "")
        m.comma = locale.localeconv()["decimal_point"] == ","


def run(case, m):
    m.count("cases_with_decimal_comma", m.comma)
    s = Scratch()
    try:
        if case.get("missing"):
            m.count("missing_files")
            try:
                load(case, os.path.join(s.dir, case["name"]))
                m.violate("loading a file that does not exist raised nothing")
            except BadDataFileReadException:
                pass
            return
        text = case["eol"].join(l for l, _ in case["lines"])
        if case["last"] and case["lines"]:
            text += case["eol"]
        path = s.write(case["name"], text.encode())
        check(case, m, path)
    finally:
        s.close()


def check(case, m, path):
    rows_ = [r for _, r in case["lines"] if r is not None]
    m.count("rows", len(rows_))
    m.count("lines_to_skip", len(case["lines"]) - len(rows_))
    if not rows_:
        m.count("files_without_rows")
        try:
            load(case, path)
            m.violate("a file without rows was accepted", lines=case["lines"])
        except EmptyDataStructureException:
            pass
        return
    d = load(case, path)
    t = [r[0] for r in rows_]
    v = [r[1] for r in rows_]
    e = None
    if rows_[0][2] is not None:
        e = [NAN if r[2] is None else r[2] for r in rows_]
        m.count("files_with_errors")
        m.count("errors_missing", sum(1 for r in rows_ if r[2] is None))
    if case["eol"] == "\r\n":
        m.count("crlf")
    got = (d.timeseries(), d.data(), d.errors())
    want = (t, [v], [e] if e else [])
    for name, g, w in zip(("times", "values", "errors"), got, want):
        good = same_list(g, w) if name == "times" else same_rows(g, w)
        if not good:
            bad = None
            flat_g = g if name == "times" else (g[0] if g else [])
            flat_w = w if name == "times" else (w[0] if w else [])
            for i in range(max(len(flat_g), len(flat_w))):
                if i >= len(flat_g) or i >= len(flat_w) or not same(flat_g[i], flat_w[i]):
                    bad = i
                    break
            m.violate("a file's %s are not what it contains" % name, first_difference=bad,
                      got=flat_g[bad:bad + 3] if bad is not None else None,
                      want=flat_w[bad:bad + 3] if bad is not None else None,
                      lines=[l for l, _ in case["lines"]][:20], rows=len(rows_),
                      read=len(flat_g))
            return
    mem = SACF(t, v, e).data if e else SACF(t, v).data
    if not same_list(mem.mean_data, d.mean_data) or not same(mem.median_time, d.median_time) or \
            not same(mem.max_time, d.max_time) or \
            not same_rows(mem.normalised_data(), d.normalised_data()) or \
            not same_list(mem.normalised_timeseries(), d.normalised_timeseries()) or \
            (mem.N_datasets, mem.M_datapoints) != (d.N_datasets, d.M_datapoints):
        m.violate("a file and its columns give series with other statistics", rows=len(rows_))
        return
    tn = model.elapsed(t)
    if len(t) < 200 and all(b > a for a, b in zip(tn, tn[1:])):
        p = dict(min_lag=-tn[-1] / 2, max_lag=tn[-1], lag_resolution=tn[-1] / 9 or 1.0)
        a = SACF(t, v, e) if e else SACF(t, v)
        b = SACF(filename=path)
        if not same_result(a.autocorrelation(**p), b.autocorrelation(**p)):
            m.violate("estimates from a file and from its columns differ", rows=len(rows_))
            return
        m.count("estimates_compared")
    m.seen(case["lines"], case["eol"])
