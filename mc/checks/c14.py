"""C14: epoch times are exactly those written in the file."""
from datetime import datetime, timedelta
from itertools import product
from ..core import Obs, Violation, digest
from ..docs import at, nav_cells, ns, obs_cells, obs_sats, obs_epochs, render, sp3_cells, F2
from ..observe import check_obs, must, times_ns, tstr
from ..small import dtypes
from .c03 import check_nav
from .c04 import ALLNAMES
from .c05 import check_sp3

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all calendar dates of the 100 years, all seconds of a day and all milliseconds, in every format; gettime and load compared with the written times"
RULE = "one case = one file whose epochs are a block of consecutive times of one enumeration; gettime, load and to_datetime must give exactly these; trivial never"
ASSUMPTIONS = ["one block of times is in one file, in rising order", "RINEX 2 navigation seconds have one decimal, RINEX 3 navigation whole seconds, as in their formats"]
CHUNK = 2

FORMATS = ("o2", "o3", "n2", "n3", "sp3")


def block(kind, a, form):
    """times of one block: ISO strings"""
    if kind == "year":  # every day, the time of day varies
        t = datetime(a, 1, 1, 0, 0)
        out = []
        i = 0
        while t.year == a:
            out.append(t + timedelta(hours=i * 5 % 24, minutes=i * 7 % 60, seconds=i * 11 % 60))
            t += timedelta(days=1)
            i += 1
        return out
    if kind == "hour":  # every second
        return [datetime(2018, 7, 29, a) + timedelta(seconds=s) for s in range(3600)]
    if kind == "mins":  # every minute, the second varies
        return [datetime(2000, 2, 29, a) + timedelta(minutes=m, seconds=(m * 7 + a) % 60) for m in range(60)]
    if kind == "secs":
        return [datetime(2079, 12, 31, 23, a, s) for s in range(60)]
    if kind == "ms":  # every millisecond of a second
        return [datetime(2018, 12, 31, 23, 59, a) + timedelta(milliseconds=m) for m in range(1000)]
    if kind == "us":  # below a millisecond: what is exact and what is near a second, for load
        return [datetime(2018, 12, 31, 23, 59, 0) + timedelta(seconds=s, microseconds=m) for s in range(a, a + 3)
                for m in (0, 1, 2, 9, 10, 99, 100, 490, 499, 500, 501, 999, 1001, 123456, 499999, 500001, 654321, 999000, 999499, 999500, 999501, 999900, 999949, 999950, 999999)]
    if kind == "ds":  # every tenth of a second of a minute
        return [datetime(1999, 12, 31, 23, a) + timedelta(milliseconds=100 * m) for m in range(600)]
    if kind == "edge":  # ends of days, months, years
        out = []
        for y in range(a, a + 10):
            for m, d in ((2, 28), (2, 29), (12, 31), (1, 1), (3, 1)):
                try:
                    t = datetime(y, m, d)
                except ValueError:
                    continue
                out += [t, t + timedelta(hours=23, minutes=59, seconds=59)]
        return sorted(out)
    raise ValueError(kind)


def spaces(tier):
    big = tier == "thorough"

    def A():
        for y in range(1980, 2080):
            for k, form in product(FORMATS, ("", "zp", "yb")):
                if form and y % 10 not in (0, 5, 9) and not big:
                    continue
                yield {"k": k, "b": ["year", y], "form": form, "load": k in ("o2", "n2") or y % 4 in (0, 3) or big}
        for y in range(1980, 2080, 10):
            for k in FORMATS:
                yield {"k": k, "b": ["edge", y], "load": True}
    yield ("all days of 1980-2079", A())

    def B():
        for h in range(24):
            for k in FORMATS[:4]:
                yield {"k": k, "b": ["hour", h], "load": big}
            for k in FORMATS:
                yield {"k": k, "b": ["mins", h], "load": True}
        for m in (0, 1, 9, 10, 29, 59):
            for k in FORMATS:
                yield {"k": k, "b": ["secs", m], "load": True}
    yield ("all seconds of a day", B())

    def C():
        for s in range(60):
            for k in ("o2", "o3"):
                yield {"k": k, "b": ["ms", s], "load": k == "o2" and s % 6 == 5 or big}
        for s in range(58):
            for k in ("o2", "o3", "sp3"):
                yield {"k": k, "b": ["us", s], "load": True}
        for s in (0, 9, 59):
            for part in range(20):
                yield {"k": "o3", "b": ["ms", s], "part": part, "load": True}
        for s in (0, 1, 29, 59):
            yield {"k": "sp3", "b": ["ms", s], "load": True}
        for m in (0, 5, 59):
            yield {"k": "n2", "b": ["ds", m], "load": True}
            yield {"k": "o2", "b": ["ds", m], "load": True}
            yield {"k": "sp3", "b": ["ds", m], "load": True}
    yield ("fractions of a second", C())

    def D():  # SP3: 60 seconds, 60 minutes, 24 hours
        days = [(2018, 7, 29), (2018, 12, 31), (2020, 2, 28), (2020, 2, 29), (2019, 2, 28), (1999, 12, 31), (2021, 4, 30)]
        for d in days:
            for h, m, s in product((0, 12, 23, 24), (0, 30, 59, 60), (0, 30, 59, 60)):
                if h == 24 and (m, s) not in ((0, 0), (0, 30), (30, 0), (59, 60), (60, 60), (60, 0), (59, 59)):
                    continue
                for lead in (False, True):
                    yield {"sp3": [*d, h, m, s], "lead": lead}
    yield ("SP3 sixties", D())


def doc_of(case):
    ts = block(*case["b"], "")
    k = case["k"]
    if "part" in case:
        ts = ts[case["part"] * 50 : case["part"] * 50 + 50]
    f = {case["form"]: 1} if case.get("form") else {}
    iso = [t.isoformat() for t in ts]
    if k in ("o2", "o3"):
        return {"k": k, "sys": "G", "types": ["C1"] if k == "o2" else {"G": ["C1C"]}, "tfo": iso[0], "ev": [{"e": t, "s": ["G01"], "p": "v"} for t in iso], **f}
    if k == "n2":
        return {"k": k, "ft": "G", "ev": [{"sv": "R01", "t": t} for t in iso], **f}
    if k == "n3":
        return {"k": k, "ev": [{"sv": "R01", "t": t} for t in iso], **f}
    return {"k": "sp3", "v": "c", "sv": ["G01"], "ev": [{"e": t} for t in iso]}


def check_datetimes(gr, time, times):
    """to_datetime of the whole axis, of parts and of single epochs"""
    want = [datetime(1970, 1, 1) + timedelta(microseconds=t // 1000) for t in times]
    n = len(want)
    for a, w in ((time, want), (time[::-1], want[::-1]), (time[1::7], want[1::7]), *((time[i], [want[i]]) for i in {0, n // 2, n - 1}), (time[n - 1 :], want[-1:])):
        g = must(gr.to_datetime, a, _what="to_datetime")
        g = [g] if isinstance(g, datetime) else list(g) if getattr(g, "ndim", 0) == 1 else g
        if g != w or not all(type(x) is datetime for x in g):
            raise Violation(f"to_datetime of {len(w)} epochs from {w[:1]} gives {str(g)[:200]}")
    for x in (want[0], want, None, time.values):
        if must(gr.to_datetime, x) is not x:
            raise Violation(f"to_datetime of {type(x)} is not the argument")
    return 7


def run(case, ctx):
    import georinex as gr
    if "sp3" in case:
        y, mo, d, h, mi, s = case["sp3"]
        true = datetime(y, mo, d) + timedelta(hours=h, minutes=mi, seconds=s)
        raw = f"{y:4d} {mo:2d} {d:2d} {h:2d} {mi:2d} {s:2d}.00000000"
        ev = [{"raw_t": raw, "true_t": true.isoformat()}]
        if case["lead"]:
            ev.insert(0, {"e": (true - timedelta(minutes=15)).isoformat()})
        doc = {"k": "sp3", "v": "c", "sv": ["G01", "G02"], "ev": ev}
        ds = must(gr.load, ctx.write("doc.sp3", render(doc)))
        check_sp3(ds, doc)
        if times_ns(ds.t0)[0] != ns(true if not case["lead"] else true - timedelta(minutes=15)):
            raise Violation(f"t0 is {tstr(times_ns(ds.t0)[0])}")
        return Obs(digest(times_ns(ds.time)), transitions=len(ev), states=len(ev) + 1)
    d = doc_of(case)
    fn = ctx.write("doc." + {"o2": "18o", "o3": "rnx", "n2": "18n", "n3": "rnx", "sp3": "sp3"}[d["k"]], render(d))
    times = [ns(at(d, e.get("e", e.get("t")))) for e in d["ev"]]
    n = 0
    if d["k"] != "sp3":
        t = times_ns(must(gr.gettime, fn, _what="gettime"))
        n += 1
        for x, y in zip(t, times):
            if x != y if y % 1000000 == 0 else abs(x - y) >= 1000000:  # gettime: to the millisecond
                raise Violation(f"gettime returns {tstr(x)} for {tstr(y)}")
        if len(t) != len(times):
            raise Violation(f"gettime returns {len(t)} times, the file has {len(times)}")
    if case["load"]:
        ds = must(gr.load, fn)
        n += 1
        if d["k"][0] == "o":
            exp, tt = obs_cells(d)
            check_obs(ds, exp, dtypes(d), set(tt), obs_sats(d))
        elif d["k"] == "sp3":
            check_sp3(ds, d)
        else:
            exp, rec = nav_cells(d)
            check_nav(ds, exp, rec, ALLNAMES | set(F2["G"]))
        t = times_ns(ds.time)
        if t != times:
            raise Violation("the epochs of the load are not in order or incomplete")
        n += check_datetimes(gr, ds.time, times)
    return Obs(digest(times), transitions=len(times), states=len(times) + 1, execs=n)
