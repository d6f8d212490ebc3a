"""C21: dataset metadata reflects the header."""
import io
import math
from itertools import combinations, permutations, product
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, POS, SYS2, at, hl, ns, obs_cells, render
from ..observe import attr_eq, cells, diff, must, times_ns
from ..small import OBS, TYPES2, TYPES3, opts_of, with_times

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of header line subsets, orders, absent and unreadable variants; the attributes of the loaded dataset compared with a reference model"
RULE = "one case = one header (and options): load succeeds, its attributes and data are those the model gives; trivial = no optional header line"
ASSUMPTIONS = ["geodetic coordinates are checked by converting back to ECEF (WGS84)", "receiver type and version are loaded for RINEX 2, clock offsets for RINEX 3 observation files"]
CHUNK = 60

EV = OBS["o2g"]["ev"][:3]
H2 = {  # variants of one header line; None: readable and right
    "pos": [None, "", "  not a position", "  3970000.1234  4760000.9012", "  3970000.1234", "        0.0000        0.0000        x.0000"],
    "int": [None, "", "   xx.x", "      ----"],
    "tfo": [None, "", "  2018     7    29     0     0    0.0000000", "  20xx    07    29     0     0    0.0000000     GPS", "garbage"],
    "rec": [None, "", " " * 60],
    "rcv": [None, "", "   abc"],
    "leap": [None, "abc"],
    "nsat": [None, "abc"],
    "tlo": [None, "garbage"],
}
DUP = {"pos": "  1000000.1234 -2000000.5678  5000000.9012", "int": "    15.000", "tfo": "  2017     1     2     3     4    5.0000000     GLO", "rec": "R2                  OTHER TYPE          9"}
LABEL = {"pos": "APPROX POSITION XYZ", "int": "INTERVAL", "tfo": "TIME OF FIRST OBS", "rec": "REC # / TYPE / VERS", "rcv": "RCV CLOCK OFFS APPL", "leap": "LEAP SECONDS", "nsat": "# OF SATELLITES",
         "tlo": "TIME OF LAST OBS"}
TS = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS", " ": "GPS"}


def spaces(tier):
    big = tier == "thorough"
    ks = ("o2", "o3")

    def A():  # every subset of the optional lines; every order of some
        opt = ["com", "rec", "pos", "int", "tfo", "rcv", "com2", "leap"]
        for n in range(len(opt) + 1):
            for hs in combinations(opt, n):
                for k in ks:
                    for sysc in "GM" if k == "o3" else "G":
                        yield {"k": k, "sys": sysc, "h": list(hs[: n // 2]) + ["types"] + list(hs[n // 2 :])}
        for h in permutations(["types", "pos", "int", "tfo", "rec"] + (["rcv"] if big else [])):
            for k in ks:
                yield {"k": k, "sys": "G", "h": list(h)}
                if k == "o3" or big:
                    yield {"k": k, "sys": "M", "h": list(h)}
        for h in permutations(["types", "rcv", "tlo", "nsat", "leap"]):
            for k in ks:
                yield {"k": k, "sys": "G", "h": list(h)}
    yield ("subsets and orders", A())

    def B():  # unreadable lines, alone and in pairs
        for k in ks:
            for sysc in ("G", "M"):
                if k == "o2" and sysc == "M" and not big:
                    names = ["pos", "tfo", "rec"]
                else:
                    names = list(H2)
                for x in names:
                    for i in range(len(H2[x])):
                        for src in ("path", "stream"):
                            yield {"k": k, "sys": sysc, "h": DEFHDR + ["rcv"], "v": {x: i}, "src": src}
                        yield {"k": k, "sys": sysc, "h": [x, "types", "com"], "v": {x: i}}
                        yield {"k": k, "sys": sysc, "h": ["types", x, x, "com"], "v": {x: i}}
                        yield {"k": k, "sys": sysc, "h": ["types", x, "com", x], "v": {x: i}, "first": x}
                for x, y in combinations(names, 2):
                    for i, j in product(range(1, len(H2[x])), range(1, len(H2[y]))):
                        if k == "o2" and sysc == "M" and (i + j) % 2 and not big:
                            continue
                        yield {"k": k, "sys": sysc, "h": DEFHDR + ["rcv"], "v": {x: i, y: j}}
        for k in ks:  # repeated with another readable value: the first counts
            for sysc in ("G", "M"):
                for x in DUP:
                    for h in (["types", x, "com", x], [x, x, "types"], [x, "types", x, "com", x], DEFHDR + [x]):
                        for src in ("path", "stream"):
                            yield {"k": k, "sys": sysc, "h": h, "dup": x, "src": src}
                for x, y in combinations(DUP, 2):
                    yield {"k": k, "sys": sysc, "h": DEFHDR + [x, y], "dup": x + " " + y}
    yield ("unreadable lines", B())

    def C():  # values
        for k in ks:
            for sysc in ("GREJCSM " if k == "o2" else "GREJCISM"):
                for ver in (("2.00", "2.10", "2.11", "2.12") if k == "o2" else ("3.00", "3.01", "3.02", "3.03", "3.04", "3.05")):
                    yield {"k": k, "sys": sysc, "ver": ver, "h": DEFHDR}
                for ts in ("GPS", "GLO", "GAL", "QZS", "BDT", "IRN"):
                    if sysc == "M":
                        yield {"k": k, "sys": sysc, "ts": ts, "h": DEFHDR}
            for la, lo, al in product((-89.99, -60, -10.5, 0.001, 33.3, 75), (-179.9, -135, -60.2, 0.0, 45, 100.5), (-400.0, 0.0, 8848.0)):
                yield {"k": k, "sys": "G", "pos": [round(x, 4) for x in ecef(la, lo, al)], "h": DEFHDR}
            for p in ((6378137.0, 0.0, 0.0), (0.0, 6378137.0, 0.0), (-6378137.0, 0.0, 0.0), (0.0, 0.0, 6356752.3142)):
                yield {"k": k, "sys": "G", "pos": p, "h": DEFHDR}
            for iv in (0.01, 0.05, 0.1, 1, 5, 15, 30, 300, 3600, 86400, 1.5):
                yield {"k": k, "sys": "G", "interval": iv, "h": DEFHDR}
            for rt, rn in product(("TRIMBLE NETR9", "X", "SEPT POLARX5TR", "LEICA GR25/30 PRO+", "12345678901234567890"), ("1234", "", "12 34", "12345678901234567890")):
                yield {"k": k, "sys": "G", "rectype": rt, "recno": rn, "h": DEFHDR}
            for c in (0, 1):
                yield {"k": k, "sys": "G", "rcvclk": c, "h": DEFHDR + ["rcv"]}
    yield ("values", C())

    def D():  # epochs: interval from the data, clock offsets of the loaded epochs
        spacings = [[0], [0, 30], [0, 30, 60], [0, 30, 60, 600], [0, 1, 2, 30, 60, 90], [0, 0.5, 1.0], [0, 10, 30, 60], [0, 86400], [0, 30, 35, 60, 61]]
        for k in ks:
            for t in spacings:
                for w in (None, [0, 30], [1, 60], [500, 501]):
                    for iv in (None, 60):
                        for clk in ([], [0], [1, 2], [0, 1, 2, 3, 4, 5]):
                            if k == "o2" and clk:
                                continue
                            yield {"k": k, "sys": "G", "h": ["types", "tfo"], "t": t, "w": w, "interval_": iv, "clk": clk}
                for o in ({"use": ["R"]}, {"use": ["G"]}, {"meas": ["C"]}, {"ind": True}, {"fast": False}, {"use": ["E", "R", "G"]}):
                    yield {"k": k, "sys": "M", "h": ["types", "tfo", "pos"], "t": t, **o}
    yield ("epochs and options", D())

    def E():  # navigation files
        al, be = "    0.1118D-07  0.2235D-07 -0.5960D-07 -0.1192D-06", "    0.1167D+06  0.1802D+06 -0.1311D+06 -0.4588D+06"
        l2 = {"a": [al, "", "garbage", al[:30], "    0.1118D-07  0.2235x-07 -0.5960D-07 -0.1192D-06"], "b": [be, "", "zzz", be[:14]], "l": ["    18", "xx"], "u": ["    0.000D+00  0.000D+00   319488     1000", "xx"]}
        lab2 = {"a": "ION ALPHA", "b": "ION BETA", "l": "LEAP SECONDS", "u": "DELTA-UTC: A0,A1,T,W"}
        for n in range(5):
            for hs in permutations("ablu", n):
                for ft in "NGE":
                    yield {"k": "n2", "ft": ft, "lines": [[l2[x][0], lab2[x]] for x in hs] + [["x", "COMMENT"]]}
        for i, j in product(range(5), range(4)):
            for s in ("path", "stream"):
                yield {"k": "n2", "ft": "N", "lines": [[l2["a"][i], lab2["a"]], [l2["b"][j], lab2["b"]]], "src": s}
        for x in "EeDd":  # allowed exponent letters
            yield {"k": "n2", "ft": "N", "lines": [[v.replace("D", x), n] for v, n in ((al, "ION ALPHA"), (be, "ION BETA"))]}
        for x in "lu":
            yield {"k": "n2", "ft": "N", "lines": [[l2[x][1], lab2[x]], [al, lab2["a"]], [be, lab2["b"]]]}
        c4 = lambda n, a, b: f"{n:4s} {a:12.4E}{b:12.4E}{-a:12.4E}{-b:12.4E}"
        kinds = {"GPSA": c4("GPSA", 1e-8, 2e-8), "GPSB": c4("GPSB", 1e5, 2e5), "GAL": f"GAL  {125.0:12.4E}{0.5:12.4E}{0.02:12.4E}", "QZSA": c4("QZSA", 3e-8, 4e-8), "QZSB": c4("QZSB", 3e5, 4e5), "BDSA": c4("BDSA", 5e-8, 6e-8),
                 "BDSB": c4("BDSB", 5e5, 6e5), "IRNA": c4("IRNA", 7e-8, 8e-8), "IRNB": c4("IRNB", 7e5, 8e5)}
        I = "IONOSPHERIC CORR"
        for n in range(4):
            for hs in combinations(kinds, n):
                yield {"k": "n3", "lines": [[kinds[x], I] for x in hs]}
                yield {"k": "n3", "lines": [["x", "COMMENT"]] + [[kinds[x], I] for x in hs[::-1]] + [["    18", "LEAP SECONDS"]]}
        for x in "EeDd":
            yield {"k": "n3", "lines": [[v[:4] + v[4:].replace("E", x), I] for v in kinds.values()]}
        for x in ("GPSA", "GPSB", "GAL", "BDSB"):
            for bad in ("", x, x + " garbage", kinds[x][:25], kinds[x].replace("E", "x", 1), kinds[x].replace("0", "O")):
                yield {"k": "n3", "lines": [[bad if y == x else kinds[y], I] for y in kinds]}
        T = "TIME SYSTEM CORR"
        for bad in ("GPUT  0.9313225746E-09 0.000000000E+00 319488 2012", "GPUT", "", "garbage", "GPUT  0.9313225746x-09 0.000000000E+00 319488 2012", "GPUT  0.9313225746E-09 0.000000000E+00", "GAUT  0.9313225746E-09 0.000000000E+00       "):
            yield {"k": "n3", "lines": [[bad, T], [kinds["GPSA"], I], [kinds["GPSB"], I]]}
            yield {"k": "n3", "lines": [[kinds["GPSA"], I], [kinds["GPSB"], I], [bad, T], [bad, T]]}
        for n in (1, 2, 3):
            for ss in product("GREC", repeat=n):
                yield {"k": "n3", "lines": [], "svs": "".join(ss)}
        for use in (["G"], ["R", "E"]):
            yield {"k": "n3", "lines": [], "svs": "GREG", "use": use}
        for ver in ("3.00", "3.02", "3.04", "3.05"):
            yield {"k": "n3", "lines": [], "ver": ver}
        for ver in ("2.00", "2.10", "2.12"):
            yield {"k": "n2", "ft": "N", "lines": [], "ver": ver}
    yield ("navigation files", E())

    def F():
        for v, vel, cs, ot, ag, nep in product("acd", (False, True), ("IGS14", "ITR97", "WGS84"), ("FIT", "HLM", "BHN"), (" IGS", "ESOC", "NGS ", "    ", " X Y"), (None, 96, 1234567)):
            yield {"k": "sp3", "v": v, "vel": vel, "cs": cs, "ot": ot, "ag": ag, "nep": nep}
    yield ("SP3", F())


def ecef(lat, lon, alt):
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    la, lo = math.radians(lat), math.radians(lon)
    n = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return (n + alt) * math.cos(la) * math.cos(lo), (n + alt) * math.cos(la) * math.sin(lo), (n * (1 - e2) + alt) * math.sin(la)


def geodetic_ok(g, pos):
    lat, lon, alt = map(float, g)
    p = ecef(lat, lon, alt)
    return all(abs(x - y) < 1e-3 for x, y in zip(p, pos)) and abs(lat) <= 90 and abs(lon) <= 180


def want(at, name, exp, what):
    """the attribute is what the header says; exp None: absent"""
    got = at.get(name)
    if exp is None:
        if name in at and not (isinstance(got, str) and not got.strip()):
            raise Violation(f"{what}: attribute {name} is {got!r}, should be absent")
    elif name not in at or not attr_eq(got, exp):
        raise Violation(f"{what}: attribute {name} is {got!r}, should be {exp!r}")


def run(case, ctx):
    return (run_nav if case["k"][0] == "n" else run_sp3 if case["k"] == "sp3" else run_obs)(case, ctx)


def source(case, ctx, txt):
    ext = {"o2": "18o", "o3": "rnx", "n2": "18n", "n3": "rnx", "sp3": "sp3"}[case["k"]]
    if case.get("src") == "stream":
        return io.StringIO(txt), None
    fn = ctx.write("sub dir/My.File." + ext, txt)
    return fn, fn.name


def run_obs(case, ctx):
    import georinex as gr
    k = case["k"]
    d = {"k": k, "sys": case["sys"], "hdr": case["h"]}
    for x in ("ver", "ts", "pos", "interval", "rectype", "recno", "rcvclk"):
        if x in case:
            d[x] = case[x]
    S = case["sys"] if case["sys"] not in "M " else "G"
    d["types"] = {s: ["C1C", "L1C"] for s in ("GRE" if case["sys"] == "M" else S)} if k == "o3" else ["C1", "L1"]
    t = case.get("t", [0, 30, 60])
    M = case["sys"] == "M"
    d["ev"] = [{"e": x, "s": [S + "01", "R02"] if M else [S + "01"], "p": "b"} for x in t]
    for i in case.get("clk", []):
        if i < len(t):
            d["ev"][i]["c"] = (i + 1) * 0.000012345
    txt = render(d)
    lines = txt.split("\n")
    for x, i in case.get("v", {}).items():
        if H2[x][i] is not None:
            n = 0
            for j, ln in enumerate(lines):
                if ln[60:].strip() == LABEL[x]:
                    if not (case.get("first") == x and n):
                        lines[j] = hl(H2[x][i], LABEL[x])
                    n += 1
    for x in case.get("dup", "").split():
        for j in [j for j, ln in enumerate(lines) if ln[60:].strip() == LABEL[x]][1:]:
            lines[j] = hl(DUP[x], LABEL[x])
    txt = "\n".join(lines)
    fn, name = source(case, ctx, txt)
    a, r = opts_of(dict(case, doc=d, interval=case.get("interval_")))
    what = f"load({k}, {a})"
    try:
        ds = must(gr.load, fn, _what=what, **a)
        at_ = ds.attrs
        exp, times = obs_cells(d, **r)
        if not case.get("ind"):
            diff(cells(ds), exp, what)
        h, v = case["h"], case.get("v", {})
        rep = {x for x in h if h.count(x) > 1}

        def good(x):
            return x in h and H2[x][v.get(x, 0)] is None
        want(at_, "version", float(d.get("ver", "3.03" if k == "o3" else "2.11")), what)
        want(at_, "rinextype", "obs", what)
        want(at_, "filename", name, what)
        pos = [round(x, 4) for x in d.get("pos", POS)]
        if "pos" not in rep or v.get("pos", 0) == 0:
            want(at_, "position", pos if good("pos") else None, what)
            if good("pos"):
                if "position_geodetic" not in at_ or not geodetic_ok(at_["position_geodetic"], pos):
                    raise Violation(f"{what}: position_geodetic is {at_.get('position_geodetic')}, which is not {pos}")
            elif "position_geodetic" in at_:
                raise Violation(f"{what}: position_geodetic is {at_['position_geodetic']}, should be absent")
        if not ("int" in rep and v.get("int")):
            if good("int"):
                iv = round(d.get("interval", 30), 3)
            else:
                iv = float(np.median(np.diff(times)) / 1e9) if len(times) > 1 else float("nan")
            g = at_.get("interval", float("nan"))
            if not attr_eq(g, iv):
                raise Violation(f"{what}: attribute interval is {g!r}, should be {iv!r}")
        if case["sys"] != "M":
            want(at_, "time_system", TS[case["sys"]], what)
        elif not ("tfo" in rep and v.get("tfo")):
            readable = "tfo" in h and v.get("tfo", 0) in (0, 3)
            want(at_, "time_system", d.get("ts", "GPS") if readable else None, what)
        if k == "o2" and not ("rec" in rep and v.get("rec")):
            want(at_, "rxmodel", d.get("rectype", "RECTYPE X") if good("rec") else None, what)
        if k == "o3":
            if not ("rcv" in rep):
                want(at_, "receiver_clock_offset_applied", d.get("rcvclk", 0) if good("rcv") else None, what)
            kept = {ns(at(d, e["e"])): e.get("c") for e in d["ev"]}
            offs = [round(kept[x], 12) for x in times if kept[x] is not None]
            want(at_, "time_offset", offs or None, what)
    except Violation as e:
        e.files["rnx"] = txt
        raise
    return Obs(digest(sorted((k, str(v)) for k, v in ds.attrs.items())), transitions=len(case["h"]), states=len(case["h"]) + 1, trivial=not set(case["h"]) - {"types"})


def fl(s):
    return float(s.upper().replace("D", "E"))


def run_nav(case, ctx):
    import georinex as gr
    k = case["k"]
    d = {"k": k, "hdr": [hl(a, b) for a, b in case["lines"]]}
    if "ver" in case:
        d["ver"] = case["ver"]
    if k == "n2":
        d["ft"] = case["ft"]
        d["ev"] = [{"sv": SYS2[case["ft"]] + "01", "t": 0}, {"sv": SYS2[case["ft"]] + "03", "t": 900}]
    else:
        d["ev"] = [{"sv": f"{s}{i + 1:02d}", "t": 900 * i} for i, s in enumerate(case.get("svs", "GR"))]
    txt = render(d)
    fn, name = source(case, ctx, txt)
    a, r = opts_of(dict(case, doc=d))
    what = f"load({k}, {a})"
    try:
        ds = must(gr.load, fn, _what=what, **a)
        at_ = ds.attrs
        from ..docs import nav_cells
        exp = nav_cells(d, **r)[0]
        got = cells(ds)
        diff({v: {k: x for k, x in c.items() if k in exp.get(v, {})} for v, c in got.items()}, exp, what)
        want(at_, "version", float(d.get("ver", "3.03" if k == "n3" else "2.11")), what)
        want(at_, "rinextype", "nav", what)
        want(at_, "filename", name, what)
        sv = {x["sv"][0] for x in d["ev"] if not case.get("use") or x["sv"][0] in case["use"]}
        if set(np.atleast_1d(at_.get("svtype", [])).tolist()) != sv:
            raise Violation(f"{what}: attribute svtype is {at_.get('svtype')!r}, should be {sorted(sv)}")
        corr = {}
        for c, lab in case["lines"]:
            try:
                if lab == "ION ALPHA":
                    corr["GPSA"] = [fl(c[2 + i * 12 : 14 + i * 12]) for i in range(4)]
                elif lab == "ION BETA":
                    corr["GPSB"] = [fl(c[2 + i * 12 : 14 + i * 12]) for i in range(4)]
                elif lab == "IONOSPHERIC CORR":
                    corr[c[:4].strip()] = [fl(c[5 + i * 12 : 17 + i * 12]) for i in range(3 if c[:4].strip() == "GAL" else 4)]
            except ValueError:
                pass
        for s in ("GPS", "QZS", "BDS", "IRN"):
            want(at_, f"ionospheric_corr_{s}", corr[s + "A"] + corr[s + "B"] if s + "A" in corr and s + "B" in corr else None, what)
        want(at_, "ionospheric_corr_GAL", corr.get("GAL"), what)
    except Violation as e:
        e.files["rnx"] = txt
        raise
    return Obs(digest(sorted((k, str(v)) for k, v in at_.items())), transitions=len(case["lines"]), states=len(case["lines"]) + 1, trivial=not case["lines"])


def run_sp3(case, ctx):
    import georinex as gr
    d = {"k": "sp3", "v": case["v"], "vel": case["vel"], "cs": case["cs"], "ot": case["ot"], "ag": case["ag"], "sv": ["G01", "G12"], "ev": [{"e": 300}, {"e": 1200}]}
    if case["nep"]:
        d["nep"] = case["nep"]
    fn, name = source(case, ctx, render(d))
    ds = must(gr.load, fn, _what="load")
    want(ds.attrs, "Nepoch", case["nep"] or 2, "load")
    want(ds.attrs, "coord_sys", case["cs"], "load")
    want(ds.attrs, "orbit_type", case["ot"], "load")
    if ds.attrs.get("agency", "").strip() != case["ag"].strip():
        raise Violation(f"load: attribute agency is {ds.attrs.get('agency')!r}, should be {case['ag']!r}")
    if times_ns(ds.t0) != [ns(at(d, 300))]:
        raise Violation(f"load: t0 is {ds.t0.values}")
    return Obs(digest(sorted((k, str(v)) for k, v in ds.attrs.items())), transitions=2, states=3)
