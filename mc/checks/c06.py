"""C06: loading a time window equals loading all and slicing."""
from itertools import combinations_with_replacement, permutations, product
from ..core import Obs, Violation, digest
from ..docs import F2, F3, nav_cells, obs_cells, obs_sats, render
from ..observe import check_obs, must
from ..small import OBS, load, fmt, tl, with_times
from .c03 import check_nav
from .c04 import ALLNAMES

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of every window over every small file, real code compared with the sliced reference model"
RULE = "one case = one file and one window (start, stop over a grid at, just before, just after and between all epochs); " \
       "the loaded window is compared cell by cell with the slice of the reference reader; trivial = empty window"
ASSUMPTIONS = ["observation epochs rise within a file"]


def grid(times, fine=True):
    g = set()
    for t in times:
        g |= {t, t + 0.001, t - 0.001} if fine else {t}
    ts = sorted(times)
    g |= {(a + b) / 2 for a, b in zip(ts, ts[1:])}
    g |= {ts[0] - 3600, ts[-1] + 3600}
    return sorted(g)


def windows(times, fine=True):
    g = grid(times, fine)
    return [(a, b) for i, a in enumerate(g) for b in g[i:]]


def spaces(tier):
    big = tier == "thorough"

    def A():
        for name in ("o3m", "o3g", "o2g", "o2m"):
            d = OBS[name]
            for times in ([0, 30, 60, 90, 120], [0, 30], [0], [0, 1, 2, 300, 301], [0.2, 0.4, 0.6, 0.8, 1.0]):
                dd = with_times(d, times)
                ws = windows(times, fine=len(times) < 3 or times[1] == 30)
                for i, w in enumerate(ws):
                    if name == "o2m" and not big and i % 3:
                        continue
                    yield {"doc": dd, "w": w, "form": "dt"}
    yield ("obs windows", A())

    def B():
        for name in ("o3m", "o2g", "o3g"):
            times = [0, 30, 60, 90]
            dd = with_times(OBS[name], times)
            for w in windows(times, fine=False):
                for form in ("iso", "sp", "short", "us"):
                    yield {"doc": dd, "w": w, "form": form}
        # windows over hour, day, month and year borders
        for t0 in ("2018-07-29T09:59:00", "2018-09-30T23:59:00", "2018-12-31T23:59:00", "2020-02-28T23:59:00", "1999-12-31T23:59:30"):
            for name in ("o3g", "o2g"):
                dd = dict(with_times(OBS[name], [0, 30, 60, 90]), t0=t0)
                for w in windows([0, 30, 60, 90], fine=False):
                    for form in ("dt", "iso", "short", "us"):
                        if form != "dt" and (w[1] - w[0]) % 30:
                            continue
                        yield {"doc": dd, "w": w, "form": form}
        # every two forms of every two limits: a date, no seconds, seconds, fractions
        lim = [-61200, 0, 25200, 25230, 25230.25, 86400, 86400.5]  # after 7 in the morning of the day before
        ts = sorted({round(x + d, 3) for x in lim for d in (-30, -0.25, 0, 0.25, 30)})
        for name in ("o2g", "o3g"):
            dd = dict(with_times(OBS[name], ts), t0="2018-07-29T00:00:00")
            for i, (a, b) in enumerate(combinations_with_replacement(lim, 2)):
                for f in product(*(["iso", "sp", "us", "ms", "long", "name"] + (["date"] if x % 86400 == 0 else []) + (["hm"] if x % 60 == 0 else []) for x in (a, b))):
                    if big or a == b or (i + len(f[0]) + len(f[1]) + (name == "o2g")) % 3 == 0 or "date" in f or "hm" in f:
                        yield {"doc": dd, "w": (a, b), "form": f}
    yield ("string limits and borders", B())

    def C():  # with other options, special events and junk lines in between
        for name, opts in product(("o3m", "o2g", "o2m"), ({"use": "G"}, {"use": ["R", "G"]}, {"meas": ["C"]}, {"ind": True}, {"fast": False},
                                                   {"fast": False, "ind": True}, {"use": ["G"], "meas": ["L1", "C"], "ind": True})):
            for times in ([0, 30, 60, 90],):
                dd = with_times(OBS[name], times)
                if name == "o2g" and opts.get("use"):
                    continue
                for i, w in enumerate(windows(times, fine=False)):
                    if name == "o2m" and "use" not in opts and not big and i % 3:
                        continue
                    yield {"doc": dd, "w": w, "form": "dt", **opts}
        for name in ("o3g", "o2g"):
            base = with_times(OBS[name], [0, 30, 60, 90])
            for x in ({"x": 4, "n": ["a comment" + " " * 51 + "COMMENT"], "t": None}, {"x": 3, "n": ["x" * 8 + " " * 52 + "MARKER NAME"], "t": 45.0}, {"x": 6, "sl": ["G01", "G02"], "t": 30.0}):
                for slot in range(5):
                    ev = list(base["ev"])
                    ev.insert(slot, x)
                    for w in windows([0, 30, 60, 90], fine=False):
                        yield {"doc": dict(base, ev=ev), "w": w, "form": "dt"}
        # many satellites: continuation lines are skipped too
        for n in (11, 12, 13, 24, 25):
            for nt in (1, 5, 6):
                g = [f"G{i:02d}" for i in range(1, n + 1)]
                for k in ("o2", "o3"):
                    dd = {"k": k, "sys": "G", "types": ["C1", "L1", "P1", "L2", "P2", "S1"][:nt] if k == "o2" else {"G": ["C1C", "L1C", "S1C", "C2W", "L2W", "C5Q"][:nt]},
                          "ev": [{"e": 30 * i, "s": g, "p": "b"} for i in range(4)]}
                    for w in windows([0, 30, 60, 90], fine=False):
                        yield {"doc": dd, "w": w, "form": "dt"}
    yield ("with options and events", C())

    def D():  # navigation: every order of the records
        recs = [("G01", 0), ("R02", 900), ("G03", 7200), ("E04", 3600)]
        for p in permutations(recs):
            times = sorted({t for _, t in recs})
            for w in windows(times, fine=False):
                yield {"doc": {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in p]}, "w": w, "form": "dt"}
        p3 = [("G01", 0), ("G01", 0), ("G01", 7200), ("R01", 7200), ("G01", 7200)]
        for w in windows([0, 7200]):
            for form in ("dt", "iso", "short"):
                for use in (None, "G", ["R"], ["G", "R"]):
                    yield {"doc": {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in p3]}, "w": w, "form": form, "use": use}
    yield ("RINEX 3 navigation", D())

    def E():
        for ft, s in (("N", "G"), ("G", "R"), ("E", "E")):
            recs = [(1, 0), (2, 0), (1, 900), (3, 7200)]
            ev = [{"sv": f"{s}{n:02d}", "t": t} for n, t in recs]
            for w in windows([0, 900, 7200]):
                for form in ("dt", "iso"):
                    yield {"doc": {"k": "n2", "ft": ft, "ev": ev}, "w": w, "form": form}
            for p in permutations([0, 1, 2]):
                tt = [0, 900, 7200]
                for w in windows(tt, fine=False) if ft == "N" else [(0, 450), (450, 7200), (900, 900), (-60, 9000)]:
                    yield {"doc": {"k": "n2", "ft": ft, "ev": [{"sv": f"{s}{i + 1:02d}", "t": tt[i]} for i in p]}, "w": w, "form": "dt"}
    yield ("RINEX 2 navigation", E())


def run(case, ctx):
    d = case["doc"]
    fn = ctx.write("doc.18o" if d["k"][0] == "o" else "doc.18n", render(d))
    w = tl(d, *case["w"])
    f = case["form"]
    arg = tuple(fmt(t, x) for t, x in zip(w, (f, f) if isinstance(f, str) else f))
    if case["form"] == "iso":
        arg = list(arg)
    opts = {k: case[k] for k in ("use", "meas", "fast") if k in case}
    if case.get("ind"):
        opts["useindicators"] = True
    ds = must(load, fn, tlim=arg, _what=f"load(tlim={arg}, {opts})", **opts)
    if d["k"][0] == "o":
        exp, times = obs_cells(d, use=case.get("use"), meas=case.get("meas"), tlim=w, ind=case.get("ind"))
        at = {t for v in (d["types"].values() if d["k"] == "o3" else [d["types"]]) for t in v}
        at |= {t + x for t in at for x in ("lli", "ssi")}
        check_obs(ds, exp, at, set(times), obs_sats(d, case.get("use")))
    else:
        exp, rec = nav_cells(d, use=case.get("use"), tlim=w)
        check_nav(ds, exp, rec, ALLNAMES | {f for v in F2.values() for f in v})
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(d["ev"]), states=len(d["ev"]) + 1,
               trivial=not exp)
