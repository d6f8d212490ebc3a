"""C11: conversion to NetCDF loses nothing."""
import io
from itertools import product
import numpy as np
import xarray
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, NOINT, hl, render
from ..observe import attr_eq, cells, coords_of, diff, must, times_ns, tstr
from ..small import OBS, fmt, opts_of, tl, with_times
from .c05 import cells_sp3

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of content x loading options x output forms; write, read back and compare the datasets"
RULE = "one case = one file, option combination and output form: dataset returned by load(out=), by load without out, the file's group " \
       "and load(file) agree in epochs, satellites, variables, values and attributes; trivial = empty dataset"
ASSUMPTIONS = ["a list attribute of one element may come back as scalar (netCDF has no difference)"]

FULLHDR = ["com3", "com", "marker", "obsv", "rec", "ant", "pos", "delta", "types", "int", "tfo", "tlo", "rcv", "leap", "nsat"]
D = {
    "o2m": OBS["o2m"], "o2g": OBS["o2g"], "o3m": OBS["o3m"], "o3g": OBS["o3g"],
    "o2full": dict(OBS["o2g"], hdr=FULLHDR), "o3full": dict(OBS["o3m"], hdr=FULLHDR, rcvclk=1),
    "o3clk": dict(OBS["o3g"], ev=[dict(e, c=0.000123456 * (i + 1)) for i, e in enumerate(OBS["o3g"]["ev"])]),
    "o3clk1": dict(OBS["o3g"], ev=[dict(e, c=-0.5) for e in OBS["o3g"]["ev"][:1]]),
    "o2bare": dict(OBS["o2g"], hdr=["types", "tfo"]), "o3bare": dict(OBS["o3m"], hdr=["types", "tfo"]),
    "o2one": with_times(OBS["o2g"], [0]), "o3one": with_times(OBS["o3m"], [0]),
    "o2frac": with_times(OBS["o2g"], [0.2, 0.4, 0.6]), "o3frac": with_times(OBS["o3g"], [0.001, 0.002, 59.999]),
    "o2none": dict(OBS["o2g"], ev=[]), "o3none": dict(OBS["o3m"], ev=[]),
    "o2y": dict(OBS["o2g"], t0="1999-12-31T23:59:00"), "o3y": dict(OBS["o3g"], t0="2068-02-28T23:59:00"),
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200}, {"sv": "G01", "t": 7200}],
           "hdr": [hl("    0.1118D-07  0.2235D-07 -0.5960D-07 -0.1192D-06", "ION ALPHA"), hl("    0.1167D+06  0.1802D+06 -0.1311D+06 -0.4588D+06", "ION BETA")]},
    "n2r": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 900}, {"sv": "R22", "t": 0}]},
    "n2e": {"k": "n2", "ft": "E", "ev": [{"sv": "E01", "t": 900}]},
    "n2none": {"k": "n2", "ft": "N", "ev": []},
    "n3": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R02", "t": 900}, {"sv": "E05", "t": 600}, {"sv": "C05", "t": 600}, {"sv": "G01", "t": 0}, {"sv": "G01", "t": 0}],
           "hdr": [hl("GPSA   0.1118E-07  0.2235E-07 -0.5960E-07 -0.1192E-06", "IONOSPHERIC CORR"), hl("GPSB   0.1167E+06  0.1802E+06 -0.1311E+06 -0.4588E+06", "IONOSPHERIC CORR"),
                   hl("GAL    0.1118E-07  0.2235E-07 -0.5960E-07", "IONOSPHERIC CORR")]},
    "n3j": {"k": "n3", "sys": "G", "ev": [{"sv": "G01", "t": 0}, {"sv": "G32", "t": 900, "nf": 31}]},
    "n3none": {"k": "n3", "ev": []},
    "s": {"k": "sp3", "v": "c", "sv": ["G01", "R02", "E07"], "ev": [{"e": 0}, {"e": 900, "s": ["R02", "E07"]}]},
    "sv": {"k": "sp3", "v": "d", "vel": True, "sv": [f"G{i:02d}" for i in range(1, 19)], "ev": [{"e": 0}, {"e": 900}, {"e": 1800, "s": []}]},
    "sa": {"k": "sp3", "v": "a", "sp_num": True, "blankG": True, "sv": ["G01", "G12"], "ev": [{"e": 0}]},
}
# values: zero, negative, wide, small, large ones in every variable
V = {f"{k}{p}": dict(OBS[k], ev=[dict(e, p=p) for e in OBS[k]["ev"][:3]]) for k in ("o2g", "o3g", "o3m", "o2m") for p in ("z", "n", "w", "q", "bz", "zN.", "wz.f", "l.sg", "fgh")}
for ft, s in (("N", "G"), ("G", "R"), ("E", "E")):
    for x in (0.0, -1e-99, 9.999999999999e99, -0.1):
        V[f"n2{s}{x}"] = {"k": "n2", "ft": ft, "ev": [{"sv": s + "01", "t": 0, "v": {str(k): x for k in range(31)}}, {"sv": s + "02", "t": 0}, {"sv": s + "02", "t": 900, "v": {str(k): x for k in range(0, 31, 2)}}]}
for s in "GRECJSI":
    for x in (0.0, -1e-99, 9.999999999999e99, -0.1):
        V[f"n3{s}{x}"] = {"k": "n3", "ev": [{"sv": s + "01", "t": 0, "v": {str(k): x for k in range(31)}}, {"sv": s + "02", "t": 0}, {"sv": s + "02", "t": 900, "v": {str(k): x for k in range(0, 31, 2)}}]}
for v in "acd":
    for x in (0.0, -1e-6, 999999.999999, -12345.678901, 26559.000001):
        V[f"s{v}{x}"] = {"k": "sp3", "v": v, "vel": True, "sv": ["G01", "G02"], "ev": [{"e": 0, "val": {"G01": [x] * 8}}, {"e": 900, "val": {"G02": [x, None] * 4}}]}
EXT = {"o2": "doc.18o", "o3": "doc.rnx", "n2": "doc.18n", "n3": "doc.rnx", "sp3": "doc.sp3"}


def spaces(tier):
    big = tier == "thorough"

    def A():
        for name, of in product(D, ("nc", "dir", "strnc", "strdir")):
            if name == "o2m" and of[0] == "s":
                continue
            yield {"d": name, "of": of}
            if of == "nc" and D[name]["k"] != "sp3":
                yield {"d": name, "of": of, "src": "stream"}
            if of == "nc":
                yield {"d": name, "of": of, "src": "str"}
                yield {"d": name, "of": of, "old": "other", }
        for name in V:
            for ind in (False, True) if V[name]["k"][0] == "o" else (False,):
                yield {"d": name, "of": "nc", "ind": ind}
    yield ("contents and outputs", A())

    def B():
        uses = (None, ["G"], ["R"], ["E", "G"])
        for name in ("o3m", "o2g", "o2m", "o3g", "o2full", "o3full", "o3clk"):
            for u, m, w, iv, ind in product(uses, (None, ["L"], ["C1", "S"], ["X"]), (None, [30, 90], [31, 59], [500, 600]), (None, 60, 45), (False, True)):
                if u and (name[2:] == "g" or name not in ("o3m", "o2m")):
                    continue
                if name == "o2m" and (not u or len(u) > 1 or not big and (iv == 45 or m == ["X"] and w)):
                    continue
                if name not in ("o3m", "o2g") and not big and (iv == 45 or m and m[0] == "L" or ind and w and w[0] == 31):
                    continue
                yield {"d": name, "of": "nc", "use": u, "meas": m, "w": w, "interval": iv, "ind": ind}
        for name in ("n2", "n2r", "n3"):
            for w in ([0, 7200], [0, 0], [1, 599], [-9, -1]):
                for u in (None,) if name[1] == "2" else (None, ["G"], ["R", "E"], ["J"]):
                    yield {"d": name, "of": "nc", "w": w, "use": u}
    yield ("options", B())


def labelled(ds, sp3):
    if sp3:
        c, t, sv = cells_sp3(ds)
        c["t0"] = {(times_ns(ds.t0)[0], ""): 1.0} if "t0" in ds else {}
        return c, sorted(t), sorted(sv), set(ds.data_vars)
    t, sv = coords_of(ds)
    return cells(ds, ignore=lambda v: False), sorted(t), sorted(sv), set(ds.data_vars)


def same(a, b, what, sp3):
    ca, ta, sa, va = labelled(a, sp3)
    cb, tb, sb, vb = labelled(b, sp3)
    if va != vb:
        raise Violation(f"{what}: variables {sorted(vb)}, should be {sorted(va)}")
    diff(cb, ca, what)
    if ta != tb:
        raise Violation(f"{what}: epochs {[tstr(x) for x in tb]}, should be {[tstr(x) for x in ta]}")
    if sa != sb:
        raise Violation(f"{what}: satellites {sb}, should be {sa}")
    for k in sorted(set(a.attrs) | set(b.attrs)):
        if k not in b.attrs:
            raise Violation(f"{what}: attribute {k} is lost")
        if k not in a.attrs:
            raise Violation(f"{what}: attribute {k} appeared")
        if not attr_eq(a.attrs[k], b.attrs[k]):
            raise Violation(f"{what}: attribute {k} is {b.attrs[k]!r}, should be {a.attrs[k]!r}")
    return ca


def run(case, ctx):
    import georinex as gr
    d = D.get(case["d"]) or V[case["d"]]
    sp3 = d["k"] == "sp3"
    txt = render(d)
    if case.get("src") == "stream":
        mk = lambda: io.StringIO(txt)
        name = None
    else:
        fn = ctx.write(EXT[d["k"]], txt)
        mk = (lambda: str(fn)) if case.get("src") == "str" else (lambda: fn)
        name = fn.name
    a, _ = opts_of(dict(case, doc=d))
    if d["k"][0] == "n":
        a.pop("useindicators", None)
    ref = must(gr.load, mk(), **a)
    of = case["of"]
    outdir = ctx.path("out")
    outdir.mkdir()
    outfn = outdir / (f"{name}.nc" if of.endswith("dir") else "result.nc")
    out = outdir if of.endswith("dir") else outfn
    if case.get("old") == "other":  # the output exists already with the other kind of data
        other = D["n3j"] if d["k"][0] == "o" else D["o3one"]
        if not sp3:
            must(gr.load, ctx.write("other.rnx", render(other)), outfn)
    ret = must(gr.load, mk(), str(out) if of.startswith("str") else out, _what=f"load(out={of}, {a})", **a)
    same(ref, ret, "dataset returned by load(out=)", sp3)
    if not outfn.is_file():
        raise Violation(f"output {outfn.name} was not written; directory has {[p.name for p in outdir.iterdir()]}")
    if case.get("old") != "other" and sorted(p.name for p in outdir.iterdir()) != [outfn.name]:
        raise Violation(f"output directory has {[p.name for p in outdir.iterdir()]}")
    grp = None if sp3 else ("OBS" if d["k"][0] == "o" else "NAV")
    with must(xarray.open_dataset, outfn, group=grp) as x:
        c = same(ref, x, "group of the NetCDF file", sp3)
    if not sp3:
        for i in range(2):
            back = must(gr.load, outfn if i else str(outfn), _what="load of the NetCDF file")
            if case.get("old") == "other":
                back = back[grp.lower()]
            same(ref, back, "load of the NetCDF file", sp3)
            back.close()
    return Obs(digest((case["d"], sorted((k, sorted(v.items())) for k, v in c.items()))), transitions=3, states=4, execs=5, trivial=not any(c.values()))
