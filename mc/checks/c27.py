"""C27: plots show the data they are given."""
import contextlib
import io
import math
import runpy
import sys
from itertools import combinations, permutations, product
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import nav_cells, obs_cells, ns, parse_t, render
from ..observe import must, times_ns, tstr
from ..small import OBS, opts_of, load
from .c21 import geodetic_ok
from .c22 import build as nav_build, kepler
from .c23 import DOCS as DOCS23

ID = "C27"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of observation patterns, navigation histories, tables of receivers and command lines; every artist on the figures that the real code makes compared with the reference model of the data"
RULE = "one case = one dataset, table or command line drawn by the real code: the set of drawn (label, points) equals that of the reference; trivial = nothing to draw"
ASSUMPTIONS = ["figures are inspected before they are rendered", "positions drawn with a map projection are in degrees",
               "georinex.plot with one satellite draws lines, with several a mesh"]
CHUNK = 20
DOCS = dict(DOCS23, n2=nav_build({"k": "n2", "r": [["G01", 2012, 0, 0, 0], ["G22", 2012, 0, 30, 1], ["G01", 2012, 7200, -30, 3]]})[0],
            n3=nav_build({"k": "n3", "r": [["G01", 2012, 0, 0, 0], ["R22", 2012, 0, 30, 1], ["E01", 2012, 0, 600, 4], ["G01", 2012, 7200, 0, 5]]})[0])
P3 = ["C05", "G01", "G02", "E05", "R01", "S20", "J01"]
XYZ = ([11000.0, 11001.5], [20000.0, 20010.5], [11500.0, 11480.5])  # km; coordinates that repeat
IV = [None, 0.05, 4.9, 5.0, 14.9, 15.0, 29.9, 30.0, 60.0, 0.0]


def spaces(tier):
    big = tier == "thorough"

    def A():  # which values are there
        for k, L in (("o2m", "L1"), ("o3m", "L1C")):
            for m in range(1, 512) if big else [x for x in range(1, 512) if x % 3 == (k == "o3m") or bin(x).count("1") in (1, 2, 8, 9)]:
                yield {"obs": {"k": k, "m": m}}
        for k, o in product(("o2g", "o2m", "o3g", "o3m"), ({}, {"use": ["G"]}, {"use": ["R", "E"]}, {"meas": ["C1", "C1C"]}, {"meas": ["L1", "L1C"]}, {"meas": ["L"]}, {"ind": 1}, {"w": [0, 60]}, {"interval": 60}, {"fast": False}, {"w": [900, 901]})):
            for src in ("path", "stream", "nc", "sel", "direct") if k[2] == "m" or "R" not in o.get("use", ()) else ():
                yield {"obs": {"k": k}, "o": o, "src": src}
    yield ("observations", A())

    def B():
        for n in (1, 2, 3):
            for s in product(P3, repeat=n):
                if n < 3 or big or len(set(s)) != 2:
                    for src in ("path", "stream") if n < 3 else ("path",):
                        yield {"nav": [[sv, 2012, 7200 * i, [0, -600, 30][i], i] for i, sv in enumerate(s)], "k": "n3", "src": src}
        for s in product(P3[1:6], repeat=2):  # one time: copies of a satellite
            yield {"nav": [[sv, 2012, 7200, 0, i] for i, sv in enumerate(s)], "k": "n3", "src": "path"}
        for svs in (["G01", "G02", "G31"], ["R01", "R02", "R24"]):
            for n in (1, 2, 3):
                for s in product(svs, repeat=n):
                    for src in ("path", "nc", "sel"):
                        yield {"nav": [[sv, 2012, 7200 * i, [0, -600, 30][i], i] for i, sv in enumerate(s)], "k": "n2", "src": src}
        for s in permutations(["G01", "E05", "R01", "C05"], 3):
            for src in ("nc", "sel", "use"):
                yield {"nav": [[sv, 2012, 7200 * i, 0, i] for i, sv in enumerate(s)], "k": "n3", "src": src}
        for k, svs in (("n2", ["R01"]), ("n3", ["R01"]), ("n3", ["S20"]), ("n3", ["R01", "S20"])):
            for b in product((0, 1), repeat=6):
                yield {"xyz": [[0, 0, 0], b[:3], b[3:]], "sv": svs, "k": k}
    yield ("navigation", B())

    def C():
        yield {"loc": []}
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for s in product(range(len(IV)), repeat=n):
                if n < 3 or big or s[0] <= s[1]:
                    yield {"loc": list(s)}
                if n == 2:
                    yield {"loc": list(s), "cli": 1}
        for s in ((), (0,), (3,), (0, 7, 4)):
            yield {"loc": list(s), "cli": 1}
    yield ("receivers", C())

    def D():
        for nav, obs, d in product(("n2", "n3"), ("o2m", "o3m"), (0, 1)):
            yield {"both": [nav, obs], "direct": d}
        for x in ("sp3", "none", "list", "dataarray", "number"):
            yield {"nothing": x}
        for k in DOCS:
            yield {"read": k}
        for a, b in product(DOCS, DOCS):
            yield {"seq": [a, b]}
        for k in ("o2m", "o3m", "o2g"):
            for sv in ("G01", "R02", "E03"):
                for w in ([], ["L1C", "L1"], ["C1", "C1C", "S1", "S1C"], ["L1", "X9", "L1C"]):
                    for t in ([], [0, 120], [30, 90], [30.5, 119]):
                        if k != "o2g" or sv[0] == "G":
                            yield {"plot": k, "sv": [sv], "w": w, "t": t}
            if k != "o2g":
                for svs in (["G01", "R02"], ["R02", "G01"], ["E03", "R02", "G01"]):
                    for w in (["L1C", "L1"], ["C1", "C1C"]):
                        yield {"plot": k, "sv": svs, "w": w, "t": []}
    yield ("both, others, command line", D())


def figures():
    import matplotlib.pyplot as plt
    return [plt.figure(n) for n in plt.get_fignums()]


def lines(ax):
    """-> [(label, [(x, y)])] of the visible points"""
    leg = ax.get_legend()
    names = [t.get_text() for t in leg.get_texts()] if leg is not None else [str(x.get_label()) for x in ax.lines]
    if len(names) != len(ax.lines):
        raise Violation(f"{len(ax.lines)} lines, {len(names)} labels")
    out = []
    for n, x in zip(names, ax.lines):
        if leg is not None and not str(x.get_label()).startswith("_") and str(x.get_label()) != n:
            raise Violation(f"line {x.get_label()} is called {n} in the legend")
        xs = np.asarray(x.get_xdata(orig=True))
        ys = np.asarray(x.get_ydata(orig=True), float)
        if len(xs) != len(ys) or ys.ndim != 1:
            raise Violation(f"line {n} has {len(xs)} abscissae, {ys.shape} ordinates")
        xs = times_ns(xs) if xs.dtype.kind in "MO" else xs.astype(float).tolist()
        out.append((n, [(a, b) for a, b in zip(xs, ys.tolist()) if not math.isnan(b)]))
    return out


def cmp_lines(got, want, what):
    """want: {label: {x: y}}"""
    names = [n for n, _ in got]
    for n in names:
        if names.count(n) > 1:
            raise Violation(f"{what}: {n} is drawn {names.count(n)} times")
    g = {n: p for n, p in got if p}
    if set(g) != set(want):
        raise Violation(f"{what}: draws {sorted(g)}, should draw {sorted(want)}")
    for n, p in g.items():
        w = sorted(want[n].items())
        if p != w:
            raise Violation(f"{what}: {n} drawn at {[(tstr(a), b) for a, b in p][:6]}, should be {[(tstr(a), b) for a, b in w][:6]}")


def obs_doc(c):
    d = OBS[c["k"]]
    if "m" not in c:
        return d
    o2 = c["k"] == "o2m"
    m = c["m"]
    sv = ["G01", "R02", "E03"]
    ev = []
    for e in range(3):
        ev.append({"e": 30 * e, "s": sv, "p": [["b" if o2 else "b", ".v.", "v.v"][e], "b", "v"][e % 3]})
    d = dict(d, ev=ev, types=(["C1", "L1", "S1"] if o2 else {s: ["C1C", "L1C", "S1C"] for s in "GRE"}))
    return d


def blank(txt, d, m):
    """blank out the L1 value of satellite s at epoch e unless bit 3e+s of m is set; the second value of every line"""
    out, e, s = [], -1, 0
    body = False
    for ln in txt.split("\n"):
        if body and ln.strip():
            if ln.startswith(">") or ln.startswith(" 18"):
                e, s = e + 1, 0
            else:
                o = (3 if d["k"] == "o3" else 0) + 16
                if not m >> (3 * e + s) & 1:
                    ln = ln[:o] + " " * len(ln[o : o + 16]) + ln[o + 16 :]
                s += 1
        body = body or "END OF HEADER" in ln
        out.append(ln)
    return "\n".join(out)


def want_obs(d, ref, m=None):
    """expected lines per measurement that has data"""
    exp, times = obs_cells(d, **ref)
    if m is not None:
        ts = [ns(parse_t(d.get("t0", "2018-07-29T00:00:00"))) + x["e"] * 10**9 for x in d["ev"]]
        sv = d["ev"][0]["s"]
        exp = {v: {k: x for k, x in c.items() if v not in ("L1", "L1C") or m >> (3 * ts.index(k[0]) + sv.index(k[1])) & 1} for v, c in exp.items()}
    out = {}
    for p in ("L1", "L1C"):
        ln = {}
        for (t, s), x in exp.get(p, {}).items():
            ln.setdefault(s, {})[t] = x
        if ln:
            out[p] = ln
    return out


def want_nav(doc, info_week="GPSWeek"):
    """-> {label: [(t, xyz, tolerance)]}"""
    exact, recs = nav_cells(doc)
    names = sorted({n for _, n in recs})
    out = {}
    for n in names:
        if n[0] not in "GERS":
            continue
        pts = []
        for t in sorted(t for t, x in recs if x == n):
            if n[0] in "RS":
                pts.append((t, tuple(exact[c][t, n] for c in "XYZ"), 1e-3))
            else:
                el = {v: c[t, n] for v, c in exact.items() if (t, n) in c}
                from .c22 import GPS0
                sec = (t - ns(GPS0)) / 1e9
                p, tol = kepler(el, el["GALWeek" if n[0] == "E" else "GPSWeek"], el["Toe"], sec)
                pts.append((t, p, tol))
        out[n] = pts
    return out


def latlon(x, y, z):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    p = math.hypot(x, y)
    la = math.atan2(z, p * (1 - e2))
    for _ in range(20):
        n = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
        la = math.atan2(z + e2 * n * math.sin(la), p)
    return math.degrees(la), math.degrees(math.atan2(y, x))


def check_obs_figs(figs, want, what):
    if len(figs) != len(want):
        raise Violation(f"{what}: {len(figs)} figures, should be {len(want)}")
    for f, (p, ln) in zip(figs, want.items()):
        if len(f.axes) != 1:
            raise Violation(f"{what}: {len(f.axes)} axes")
        ax = f.axes[0]
        if ax.get_ylabel() != p:
            raise Violation(f"{what}: ordinate called {ax.get_ylabel()!r}, should be {p}")
        cmp_lines(lines(ax), ln, what + " " + p)


def check_nav_fig(fig, want, what):
    if len(fig.axes) != 1:
        raise Violation(f"{what}: {len(fig.axes)} axes")
    ax = fig.axes[0]
    got = lines(ax)
    names = [n for n, _ in got]
    if sorted(names) != sorted(want):
        raise Violation(f"{what}: draws {sorted(names)}, should draw {sorted(want)}")
    for n, pts in got:
        w = want[n]
        if len(pts) != len(w):
            raise Violation(f"{what}: {n} has {len(pts)} points, should have {len(w)}")
        for (lon, lat), (t, xyz, tol) in zip(pts, w):
            la, lo = latlon(*xyz)
            e = math.degrees((tol + 1) / 1e6)
            if not (abs(lat - la) <= e and min(abs(lon - lo), abs(abs(lon - lo) - 360)) <= e / max(math.cos(math.radians(la)), 1e-3)):
                raise Violation(f"{what}: {n} at {tstr(t)} drawn at {lat}, {lon}, should be {la}, {lo}")


def cli(mod, argv):
    old = sys.argv
    sys.argv = ["georinex." + mod, *argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_module("georinex." + mod, run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise RuntimeError(f"exit {e.code}")
    finally:
        sys.argv = old


def run(case, ctx):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        return run1(case, ctx)
    finally:
        plt.close("all")


def run1(case, ctx):
    import georinex as gr
    import georinex.plots as gp
    if "obs" in case:
        d = obs_doc(case["obs"])
        m = case["obs"].get("m")
        txt = render(d)
        if m is not None:
            txt = blank(txt, d, m)
        a, ref = opts_of(dict(case.get("o", {}), doc=d))
        src = case.get("src", "path")
        arg = io.StringIO(txt) if src == "stream" else ctx.write("a b.18o", txt)
        if src == "nc":
            must(gr.load, arg, ctx.path("x.nc"), **a)
            ds = must(gr.load, ctx.path("x.nc"))
        else:
            ds = must(gr.load, arg, **a)
        want = want_obs(d, ref, m)
        if src == "sel":
            svs = ds.sv.values.tolist()[::-1][:2]
            ds = ds.sel(sv=svs)
            want = {p: {s: x for s, x in ln.items() if s in svs} for p, ln in want.items()}
            want = {p: ln for p, ln in want.items() if ln}
        before = ds.copy(deep=True)
        f = gp.obstimeseries if src == "direct" else gp.timeseries
        must(f, ds, _what="timeseries")
        if not before.identical(ds):
            raise Violation("timeseries changed the dataset")
        figs = figures()
        check_obs_figs(figs, want, "timeseries")
        for fg in figs:
            if src in ("path", "direct") and "a b.18o" not in fg.axes[0].get_title():
                raise Violation(f"title {fg.axes[0].get_title()!r} does not name the file")
        return Obs(digest(want), transitions=len(d["ev"]), states=len(d["ev"]) + 1, trivial=not want)
    if "xyz" in case:
        doc = {"k": case["k"], "ft": "G", "ev": [{"sv": s, "t": 900 * i, "v": {"3": XYZ[0][x], "7": XYZ[1][y], "11": XYZ[2][z]}} for i, (x, y, z) in enumerate(case["xyz"]) for s in case["sv"]]}
        ds = must(gr.load, ctx.write("n" + (".18g" if case["k"] == "n2" else ".rnx"), render(doc)))
        want = want_nav(doc)
        must(gp.timeseries, ds, _what="timeseries")
        figs = figures()
        if len(figs) != 1:
            raise Violation(f"{len(figs)} figures")
        check_nav_fig(figs[0], want, "timeseries")
        return Obs(digest(want), transitions=len(doc["ev"]), states=len(doc["ev"]) + 1)
    if "nav" in case:
        doc, _ = nav_build({"k": case["k"], "r": case["nav"]})
        src = case["src"]
        txt = render(doc)
        if case["k"] == "n2":  # repeated satellites at other times only
            pass
        arg = io.StringIO(txt) if src == "stream" else ctx.write("n" + (".18n" if case["k"] == "n2" else ".rnx"), txt)
        want = want_nav(doc)
        if src == "nc":
            must(gr.load, arg, ctx.path("x.nc"))
            ds = must(gr.load, ctx.path("x.nc"))
        elif src == "use":
            u = {"G", "R"}
            ds = must(gr.load, arg, use=u)
            want = {n: p for n, p in want.items() if n[0] in u}
        else:
            ds = must(gr.load, arg)
        if src == "sel":
            svs = ds.sv.values.tolist()[::-1][:2]
            ds = ds.sel(sv=svs)
            want = {n: p for n, p in want.items() if n in svs}
        before = ds.copy(deep=True)
        must(gp.timeseries, ds, _what="timeseries")
        if not before.identical(ds):
            raise Violation("timeseries changed the dataset")
        figs = figures()
        if len(figs) != 1:
            raise Violation(f"timeseries: {len(figs)} figures of navigation data")
        try:
            check_nav_fig(figs[0], want, "timeseries")
        except Violation as e:
            e.files["rnx"] = txt
            raise
        return Obs(digest(sorted((n, [t for t, _, _ in p]) for n, p in want.items())), transitions=len(doc["ev"]), states=len(doc["ev"]) + 1, trivial=not want)
    if "loc" in case:
        return run_loc(case, ctx)
    if "plot" in case:
        return run_plot(case, ctx)

    def wanted(k):
        d = DOCS[k]
        if d["k"] == "sp3":
            return []
        return [("nav", want_nav(d))] if d["k"][0] == "n" else [("obs", want_obs(d, {}))]

    def path(k):
        return ctx.write("f." + {"o2m": "18o", "o3m": "rnx", "o2g": "18o", "o3g": "rnx", "n2": "18n", "n3": "nav.rnx", "sp3": "sp3"}[k], render(DOCS[k]))
    if "both" in case:
        out = ctx.path("x.nc")
        for k in case["both"]:
            must(gr.load, path(k), out)
        ds = must(gr.load, out)
        want = [w for k in case["both"] for w in wanted(k)]
        must(gp.timeseries, dict(reversed(ds.items())) if case["direct"] else ds, _what="timeseries of both")
    elif "nothing" in case:
        x = {"none": None, "list": [1, 2], "number": 3}.get(case["nothing"])
        if case["nothing"] == "sp3":
            x = must(gr.load, path("sp3"))
        elif case["nothing"] == "dataarray":
            x = must(gr.load, path("o3m"))["L1C"]
        must(gp.timeseries, x, _what=f"timeseries of {case['nothing']}")
        want = []
    elif "read" in case:
        must(cli, "read", [str(path(case["read"])), "-p"], _what="read -p")
        want = wanted(case["read"])
    else:
        want = []
        for k in case["seq"]:
            must(gp.timeseries, must(gr.load, path(k)))
            want += wanted(k)
    figs = figures()
    nav = [w for k, w in want if k == "nav"]
    obs = [x for k, w in want if k == "obs" for x in w.items()]
    fn = [f for f in figs if f.axes and f.axes[0].get_ylabel() == ""]
    fo = [f for f in figs if f not in fn]
    if len(fn) != len(nav) or len(fo) != len(obs):
        raise Violation(f"{len(fn)} maps and {len(fo)} other figures, should be {len(nav)} and {len(obs)}")
    for f, w in zip(fn, nav):
        check_nav_fig(f, w, "timeseries")
    for f, w in zip(fo, obs):
        check_obs_figs([f], dict([w]), "timeseries")
    return Obs(digest([sorted(w) for _, w in want]), transitions=len(want), states=len(want) + 1, trivial=not want)


def run_loc(case, ctx):
    import pandas
    import georinex.geo as gg
    import georinex.plots_geo as pg
    from .c21 import ecef
    rows = []
    for i, k in enumerate(case["loc"]):
        rows.append((f"f{i} {'cab'[i % 3]}.18o", [-33.5, 60.25, 4.75, 10.0][i], [-170.5, 12.25, 99.0, 4.0][i], IV[k]))
    if case.get("cli"):
        base = OBS["o2m"]
        for n, la, lo, iv in rows:
            d = dict(base, pos=[round(x, 4) for x in ecef(la, lo, 50.0)], interval=iv or 0, hdr=["marker", "pos", "types"] + ([] if iv is None else ["int"]) + ["tfo"])
            ctx.write("in/" + n, render(d))
        ctx.write("in/junk.18o", b"junk")
        rows = [(n, la, lo, None if iv is None else round(iv, 3)) for n, la, lo, iv in rows]
        must(cli, "loc", [str(ctx.path("in"))], _what="georinex.loc")
    else:
        locs = pandas.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows], columns=["lat", "lon", "interval"])
        before = locs.copy(deep=True)
        must(pg.receiver_locations, locs, _what=f"receiver_locations({[r[3] for r in rows]})")
        if not before.equals(locs):
            raise Violation("receiver_locations changed its argument")
    figs = figures()
    if len(figs) != 1 or len(figs[0].axes) != 1:
        raise Violation(f"{len(figs)} figures, should be one with one map")
    from matplotlib.collections import PathCollection
    marks = [c for c in figs[0].axes[0].collections if isinstance(c, PathCollection)]
    got = {}
    for c in marks:
        off = np.asarray(c.get_offsets(), float)
        n = str(c.get_label())
        if off.shape != (1, 2) or n in got:
            raise Violation(f"{n} is marked {len(off)} times")
        got[n] = (off[0][1], off[0][0], c.get_sizes(), tuple(np.round(c.get_facecolor()[0], 3)))
    if set(got) != {r[0] for r in rows}:
        raise Violation(f"marks {sorted(got)}, should be {[r[0] for r in rows]}")
    col = {}
    for n, la, lo, iv in rows:
        g = got[n]
        if abs(g[0] - la) > 1e-6 or abs(g[1] - lo) > 1e-6:
            raise Violation(f"{n} marked at {g[0]}, {g[1]}, should be {la}, {lo}")
        if iv:
            if len(g[2]) != 1 or abs(g[2][0] * iv - 1000) > 1:
                raise Violation(f"{n}: size {g[2]} at interval {iv}")
        elif len(g[2]) != 1 or not math.isfinite(g[2][0]):
            raise Violation(f"{n}: size {g[2]} without interval")
        cl = 0 if not iv or iv >= 30 else 1 if iv >= 15 else 2 if iv >= 5 else 3
        if col.setdefault(cl, g[3]) != g[3]:
            raise Violation(f"{n}: another colour for the same class of interval {iv}")
    if len(set(col.values())) != len(col):
        raise Violation(f"one colour for different classes of interval: {rows}")
    return Obs(digest([r[3] for r in rows]), transitions=len(rows), states=len(rows) + 1, trivial=not rows)


def run_plot(case, ctx):
    d = OBS[case["plot"]]
    fn = ctx.write("a.18o", render(d))
    ref = {}
    t0 = parse_t(d.get("t0", "2018-07-29T00:00:00"))
    argv = [str(fn), *case["sv"]]
    lim = None
    if case["t"]:
        from datetime import timedelta
        lim = [t0 + timedelta(seconds=x) for x in case["t"]]
        argv += ["-t", *(x.isoformat() for x in lim)]
    if case["w"]:
        argv += ["-w", *case["w"]]
    exp, _ = obs_cells(d, **ref)
    what = case["w"] or ["L1C", "P1"]
    sel = {v: {(t, s): x for (t, s), x in exp.get(v, {}).items() if s in case["sv"] and (lim is None or ns(lim[0]) <= t <= ns(lim[1]))} for v in what}
    if any(len({t for t, _ in x}) < 2 for v, x in sel.items() if v in exp):
        return Obs("xarray draws fewer than two values in other ways", trivial=True)
    must(cli, "plot", argv, _what=f"georinex.plot {argv[1:]}")
    figs = figures()
    if len(figs) != 1:
        raise Violation(f"{len(figs)} figures")
    outs = []
    for v, ax in zip(what, figs[0].axes):
        pts = sel[v]
        if v in exp and ax.get_title() != v:
            raise Violation(f"title {ax.get_title()!r} of {v}")
        if len(case["sv"]) == 1:
            g = [p for x in ax.lines for p in zip(times_ns(np.asarray(x.get_xdata(orig=True))), np.asarray(x.get_ydata(orig=True), float).tolist()) if not math.isnan(p[1])]
            w = sorted((t, x) for (t, _), x in pts.items())
            if g != w:
                raise Violation(f"{v} drawn at {g}, should be {w}")
        else:
            a = [np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan).ravel() for c in ax.collections if c.get_array() is not None]
            g = sorted(float(x) for y in a for x in y if not math.isnan(x))
            if g != sorted(pts.values()):
                raise Violation(f"{v}: mesh of {g}, should be {sorted(pts.values())}")
        outs.append((v, sorted(pts)))
    return Obs(digest(outs), transitions=len(d["ev"]), states=len(d["ev"]) + 1, trivial=not outs)
