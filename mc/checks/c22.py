"""C22: ephemeris to ECEF conversion is per satellite and per epoch."""
import math
from datetime import datetime, timedelta
from itertools import combinations, permutations, product
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import F2, F3, F_GPS, at, ns, nav_cells, render
from ..observe import must, times_ns, tstr

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of navigation histories (satellites, epochs, elements, weeks) loaded by the real reader; every converted position compared with an independent solution of the broadcast model"
RULE = "one case = one navigation file and way of selecting from it: keplerian2ecef of every satellite, each epoch compared with the reference position of that epoch's own elements " \
       "(tolerance 2 e^2 A + 1 mm); trivial = no record"
ASSUMPTIONS = ["reference: Kepler's equation solved by Newton iteration, IS-GPS-200 user algorithm, GPS constants of the code (GM, earth rotation)",
               "Galileo week in RINEX is aligned to the GPS week"]
CHUNK = 40

GPS0 = datetime(1980, 1, 6)
GM, OME = 3.986004418e14, 7.2921151467e-5
BASE = {"sqrtA": 5153.6, "Eccentricity": 0.0, "M0": 1.2, "omega": 0.7, "Omega0": -1.0, "Io": 0.96, "DeltaN": 0.0, "IDOT": 0.0, "OmegaDot": 0.0, "Cuc": 0.0, "Cus": 0.0, "Crc": 0.0, "Crs": 0.0, "Cic": 0.0, "Cis": 0.0}
CORR = {"DeltaN": 4.5e-9, "IDOT": 3e-10, "OmegaDot": -8.1e-9, "Cuc": 1.7e-6, "Cus": 9.1e-6, "Crc": 230.5, "Crs": -44.25, "Cic": 1.3e-7, "Cis": -2.6e-7}
TKS = [-14400, -7200, -16, 0, 30, 3600, 7200, 14400, 90000]


def elements(i):
    """distinct plausible elements"""
    d = dict(BASE)
    d.update({k: v * (1 + 0.1 * i) for k, v in CORR.items()})
    d.update(sqrtA=5153.6 + 0.13 * i + (287 if i % 3 == 2 else 0), Eccentricity=[0.0, 0.005, 0.02, 1e-6][i % 4], M0=(1.7 * i + 0.3) % 6 - 3, omega=(2.1 * i) % 6 - 3, Omega0=(1.1 * i + 1) % 6 - 3, Io=0.9 + 0.03 * (i % 5))
    return d


def f19(x):
    return f"{x:19.12E}".replace("E", "D")


def record(k, sv, week, toe, tk, el):
    d = dict(el, Toe=toe)
    wk = {"G": "GPSWeek", "E": "GALWeek"}.get(sv[0])
    if wk:
        d[wk] = week
    names = F2[{"G": "N", "R": "G", "E": "E"}[sv[0]]] if k == "n2" else F3[sv[0]]
    v = {str(j): f19(d[n]) for j, n in enumerate(names) if n in d} if wk else {}
    return {"sv": sv, "t": (GPS0 + timedelta(seconds=week * 604800 + toe + tk)).isoformat(), "v": v}


def spaces(tier):
    big = tier == "thorough"

    def A():  # element values, one satellite, epochs around the reference time
        sysk = [("n2", "G"), ("n2", "E"), ("n3", "G"), ("n3", "E")]
        for (k, s), e, m0, om, io, o0 in product(sysk, (0.0, 0.003, 0.02), (-3.0, 0.0, 1.6), (-2.0, 0.7), (0.3, 0.96), (-1.0, 2.5)):
            yield {"k": k, "r": [[s + "05", 2012, 302400, t, {"Eccentricity": e, "M0": m0, "omega": om, "Io": io, "Omega0": o0}] for t in TKS]}
        for (k, s), n in product(sysk, range(0, 10)):
            for c in combinations(CORR, n) if (big or n in (0, 1, 2, 8, 9)) else []:
                for m0, e in product((-2.0, 0.4), (0.0, 0.01)):
                    yield {"k": k, "r": [[s + "05", 2012, 172800, t, dict({x: CORR[x] for x in c}, M0=m0, Eccentricity=e)] for t in TKS]}
        for (k, s), a in product(sysk, (5100.0, 5153.7, 5282.6, 5440.6, 6493.4)):
            yield {"k": k, "r": [[s + "36", 2012, 172800, t, {"sqrtA": a}] for t in TKS]}
    yield ("elements", A())

    def B():  # weeks and reference times
        for k, s in product(("n2", "n3"), "GE"):
            for w in (0, 1, 521, 1023, 1024, 1025, 2047, 2048, 2049, 2100, 2900, 3000):
                if k == "n2" and w > 2900:
                    continue
                for toe in (0, 16, 302384, 302400, 597600, 604784):
                    ts = [t for t in TKS if t > -toe or w]
                    if k == "n2" and w in (0, 1):
                        ts = [t for t in ts if t + w * 604800 + toe >= 0]
                    yield {"k": k, "r": [[s + "07", w, toe, t, {**CORR, "Eccentricity": 0.004}] for t in ts]}
            for w in range(2000, 2012) if not big else range(1000, 2100):  # the same at another week
                yield {"k": k, "r": [[s + "07", w, 7200, t, {**CORR}] for t in TKS[::2]], "same": 2012}
    yield ("weeks", B())

    def C():  # histories of satellites and epochs
        svs3, svs2 = ["G01", "G02", "E01", "R01", "S20", "C05"], ["G01", "G02", "G31"]
        sels = ["sel", "drop", "one", "rev", "nc", "sub"]
        for k, svs in (("n3", svs3), ("n2", svs2)):
            for n in range(1, 4 if big or k == "n2" else 3):
                for s in product(svs, repeat=n):
                    for sl in sels:
                        for toes in ([0, 7200, 14400], [604784, 604784, 7200]):
                            yield {"k": k, "r": [[sv, 2012, toes[i], [0, -7200, 30][i] + 7200 * i, i] for i, sv in enumerate(s)], "sel": sl}
        for s in permutations(["G01", "E01", "R01", "G01", "E05"], 4):
            for sl in sels:
                yield {"k": "n3", "r": [[sv, 2012 + i, 600000 - i, 9000 * i, i] for i, sv in enumerate(s)], "sel": sl}
        for s in product(["G01", "E01"], repeat=3):
            for ts in product((0, 7200, -7200), repeat=3):
                for sl in ("sel", "drop"):
                    if len({(a, b) for a, b in zip(s, ts)}) == 3:
                        yield {"k": "n3", "r": [[sv, 2012, 302400, t, i] for i, (sv, t) in enumerate(zip(s, ts))], "sel": sl}
        for sv in ("R01", "S20", "R24"):
            for k in ("n2", "n3"):
                if k == "n3" or sv[0] == "R":
                    for sl in sels:
                        yield {"k": k, "r": [[sv, 2012, 0, 900 * i, 0] for i in range(4)], "sel": sl}
    yield ("histories", C())


def kepler(d, week, toe, t):
    """position of one epoch, scalar arithmetic"""
    A = d["sqrtA"] ** 2
    tk = t - (week * 604800 + toe)
    M = d["M0"] + (math.sqrt(GM / A**3) + d["DeltaN"]) * tk
    e = d["Eccentricity"]
    E = M
    for _ in range(50):
        E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
    nu = math.atan2(math.sqrt(1 - e * e) * math.sin(E), math.cos(E) - e)
    ph = nu + d["omega"]
    c2, s2 = math.cos(2 * ph), math.sin(2 * ph)
    u = ph + d["Cuc"] * c2 + d["Cus"] * s2
    r = A * (1 - e * math.cos(E)) + d["Crc"] * c2 + d["Crs"] * s2
    i = d["Io"] + d["IDOT"] * tk + d["Cic"] * c2 + d["Cis"] * s2
    om = d["Omega0"] + (d["OmegaDot"] - OME) * tk - OME * toe
    x, y = r * math.cos(u), r * math.sin(u)
    return (x * math.cos(om) - y * math.cos(i) * math.sin(om), x * math.sin(om) + y * math.cos(i) * math.cos(om), y * math.sin(i)), 2 * e * e * A + 1e-3


def build(case, shift=0):
    recs, info = [], {}
    for sv, week, toe, tk, el in case["r"]:
        el = elements(el) if isinstance(el, int) else dict(BASE, **el)
        week += shift
        rec = record(case["k"], sv, week, toe, tk, el)
        recs.append(rec)
        t = (datetime.fromisoformat(rec["t"]) - GPS0).total_seconds()
        el = {n: float(f19(v).replace("D", "E")) for n, v in el.items()}
        key = sv, ns(datetime.fromisoformat(rec["t"]))
        if key not in info:
            info[key] = (el, week, toe, t)
    doc = {"k": case["k"], "ev": recs}
    if case["k"] == "n2":
        doc["ft"] = {"G": "N", "R": "G", "E": "E"}[case["r"][0][0][0]]
    return doc, info


def run(case, ctx):
    import georinex as gr
    doc, info = build(case)
    txt = render(doc)
    ext = ".18n" if case["k"] == "n2" else ".rnx"
    fn = ctx.write("nav" + ext, txt)
    sel = case.get("sel", "sel")
    if sel == "nc":
        must(gr.load, fn, ctx.path("x.nc"), _what="conversion")
        nav = must(gr.load, ctx.path("x.nc"), _what="load of the conversion")
    else:
        nav = must(gr.load, fn, _what="load")
    exact = nav_cells(doc)[0]
    outs = []
    got_all = {}
    try:
        for sv in nav.sv.values.tolist():
            if sv[0] not in "GERS" or "_" in sv:
                continue
            if case["k"] == "n2" and len({k for k in info if k[0] == sv}) != sum(1 for r in doc["ev"] if r["sv"] == sv):
                continue  # repeated records of a satellite are not loaded from RINEX 2
            d = nav.sel(sv=sv)
            if sel == "drop":
                d = d.dropna(dim="time", how="all")
            elif sel == "rev":
                d = d.isel(time=slice(None, None, -1))
            elif sel == "sub":
                d = d.isel(time=slice(d.time.size // 2, None))
            parts = [d.isel(time=i) for i in range(d.time.size)] if sel == "one" else [d]
            for p in parts:
                what = f"keplerian2ecef({sv}, {sel})"
                X, Y, Z = must(gr.keplerian2ecef, p, _what=what)
                ts = times_ns(p.time)
                X, Y, Z = (np.atleast_1d(np.asarray(v, float)) for v in (X, Y, Z))
                if X.shape != (len(ts),) or Y.shape != X.shape or Z.shape != X.shape:
                    raise Violation(f"{what}: {len(ts)} epochs give results of shape {X.shape}, {Y.shape}, {Z.shape}")
                for j, t in enumerate(ts):
                    g = X[j], Y[j], Z[j]
                    if sv[0] in "RS":
                        w = tuple(exact[c].get((t, sv), math.nan) for c in "XYZ")
                        tol = 1e-6
                    elif (sv, t) in info:
                        w, tol = kepler(*info[sv, t])
                    else:
                        w, tol = (math.nan,) * 3, 0
                    for c, a, b in zip("XYZ", g, w):
                        if math.isnan(b) != math.isnan(a) or not math.isnan(b) and not abs(a - b) <= tol:
                            raise Violation(f"{what}: {c} at {tstr(t)} is {a!r}, should be {b!r}")
                    got_all[sv, t] = g
                    outs.append((sv, t) + tuple(round(float(v), 2) for v in g))
        for k in info:
            if k[0][0] in "GE" and sel != "sub" and k not in got_all and case["k"] == "n3":
                raise Violation(f"{k[0]} at {tstr(k[1])} is not in the loaded file")
        if "same" in case:
            sh = case["same"] - case["r"][0][1]
            doc2, _ = build(case, sh)
            nav2 = must(gr.load, ctx.write("nav2" + ext, render(doc2)), _what="load")
            for sv in nav2.sv.values.tolist():
                p = nav2.sel(sv=sv)
                for t, *g in zip(times_ns(p.time), *must(gr.keplerian2ecef, p)):
                    h = got_all[sv, t - sh * 604800 * 10**9]
                    if any(abs(a - b) > 1e-3 for a, b in zip(g, h)):
                        raise Violation(f"keplerian2ecef({sv}): {g} in week {case['same']}, {h} in week {case['r'][0][1]}")
    except Violation as e:
        e.files["rnx"] = txt
        raise
    return Obs(digest(outs), transitions=len(doc["ev"]), states=len(doc["ev"]) + 1, execs=1 + len(outs), trivial=not outs)
