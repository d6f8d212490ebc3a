"""C29: loaded data join, select, tabulate and save as documented."""
import io
import warnings
from itertools import product
import math
import numpy as np
import xarray
from ..core import Obs, Violation, digest
from ..docs import nav_cells, obs_cells, ns, parse_t, render
from ..observe import attr_eq, cells, coords_of, diff, must, times_ns, tstr
from ..small import OBS, T0, load, opts_of, with_times
from .c11 import D as D11

ID = "C29"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of splits of small files into parts, time windows, systems and measurements, and of the documented operations on what they load as; " \
            "every result of the real code compared with the union of the reference readers"
RULE = "one case = one split and one operation (concat, merge, selection, table, file): labelled cells of the result = those of the reference reader of the text; trivial = no cell"
ASSUMPTIONS = ["joins are outer joins", "parts do not hold the same satellite at the same time"]

NAVS = {
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 0}, {"sv": "G01", "t": 7200}, {"sv": "G03", "t": 9000}, {"sv": "G22", "t": 14400}]},
    "n2r": {"k": "n2", "ft": "G", "ev": [{"sv": "R22", "t": 0}, {"sv": "R01", "t": 900}, {"sv": "R22", "t": 1800}]},
    "n3": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R02", "t": 900}, {"sv": "E05", "t": 1200}, {"sv": "C05", "t": 3600}, {"sv": "G01", "t": 7200}]},
    "n3d": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "G01", "t": 0}, {"sv": "E05", "t": 900}, {"sv": "E05", "t": 900}, {"sv": "E05", "t": 900}, {"sv": "S20", "t": 3600}, {"sv": "G01", "t": 7200}]},
}


def compositions(n):
    """all ways to cut n events in order -> lists of lengths"""
    for m in range(1 << (n - 1)):
        out, c = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                out.append(c)
                c = 1
            else:
                c += 1
        yield out + [c]


def parts_of(doc, cut, vary=0):
    """files of consecutive records; the header may differ from one to the next"""
    i, out = 0, []
    for k, n in enumerate(cut):
        d = dict(doc, ev=doc["ev"][i:i + n])
        i += n
        if vary and doc["k"][0] == "o":
            def rot(x):
                x = x[k % len(x):] + x[:k % len(x)]
                return x if vary == 1 else x[: max(1, len(x) - k)]
            d["types"] = rot(d["types"]) if isinstance(d["types"], list) else {s: rot(x) for s, x in d["types"].items()}
        out.append(d)
    return out


def spaces(tier):
    big = tier == "thorough"
    JOIN = ("concat", "merge", "mergerev")

    def A():  # one file per part
        for name in ("o2g", "o3g", "o3m", "o2m"):
            for cut in compositions(5):
                if name == "o2m" and not big and len(cut) not in (1, 2, 5):
                    continue
                for vary, op in product((0, 1, 2), JOIN):
                    if vary and op == "mergerev" and not big:
                        continue
                    yield {"o": name, "cut": cut, "vary": vary, "op": op}
            for cut in ([2, 3], [1, 1, 3]):
                for o in ({"ind": 1}, {"meas": ["C", "S"]}, {"use": ["G"]}, {"use": ["E", "G"], "ind": 1}, {"fast": False}, {"interval": 60}):
                    if "use" in o and name[2] == "g":
                        continue
                    for op in JOIN:
                        yield {"o": name, "cut": cut, "op": op, **o}
        for name, cut in product(("o2g", "o3g", "o3m", "o2m"), compositions(8)) if big else ():
            for vary, op in product((0, 1, 2), JOIN[:2]):
                yield {"o": name, "N": 8, "cut": cut, "vary": vary, "op": op}
        for name in NAVS:
            n = len(NAVS[name]["ev"])
            for cut in compositions(n):
                if split_ok(NAVS[name], cut):
                    for op in JOIN:
                        yield {"n": name, "cut": cut, "op": op}
    yield ("files", A())

    def B():  # parts of one file
        for name in ("o2g", "o3g", "o3m", "o2m"):
            for cut in compositions(5):
                if name == "o2m" and not big and len(cut) != 2:
                    continue
                for op in JOIN:
                    yield {"o": name, "win": cut, "op": op}
                    if op != "concat" and len(cut) < 4:
                        yield {"o": name, "win": cut, "op": op, "ind": 1}
            for cut in compositions(8) if big and name != "o2m" else ():
                for op in JOIN:
                    yield {"o": name, "N": 8, "win": cut, "op": op}
            for f in (["C", "L", "P", "S", "D"], ["C1", "C2", "C5", "L", "P", "S", "D"], ["L1", "L2", "L5", "L8", "C", "S", "D", "P"]):
                for ind in (0, 1):
                    yield {"o": name, "by": "meas", "f": f, "op": "merge", "ind": ind}
                    yield {"o": name, "by": "meas", "f": f[::-1], "op": "merge", "ind": ind}
            if name[2] == "m":
                for f in ([["G"], ["R"], ["E"]], [["E"], ["G", "R"]], [["R", "E"], ["G"]]):
                    for ind in (0, 1):
                        yield {"o": name, "by": "use", "f": f, "op": "merge", "ind": ind}
        for name in NAVS:
            ts = sorted({e["t"] for e in NAVS[name]["ev"]})
            for cut in compositions(len(ts)):
                for op in JOIN:
                    yield {"n": name, "win": cut, "op": op}
        for name in ("n3", "n3d"):
            for f in ([["G"], ["R"], ["E"], ["C"], ["S"]], [["E", "C"], ["G", "R", "S"]], [["J"], ["R", "E", "S"], ["G", "C"]]):
                yield {"n": name, "by": "use", "f": f, "op": "merge"}
    yield ("windows, systems, measurements", B())

    def C():  # selections and tables
        for name in ("o2g", "o3g", "o3m", "o2m"):
            for o in ({}, {"ind": 1}, {"use": ["G"]}, {"meas": ["C1", "L1"]}, {"w": [30, 90]}, {"interval": 60}, {"fast": False}):
                if "use" in o and name[2] == "g":
                    continue
                for src in ("path", "stream", "nc"):
                    for op in ("sv", "time", "slice", "frame", "series"):
                        yield {"o": name, "sel": op, "src": src, **o}
        for name in NAVS:
            for o in ({}, {"w": [0, 7200]}, {"w": [900, 900]}):
                for src in ("path", "stream", "nc"):
                    for op in ("sv", "time", "slice", "frame", "series"):
                        yield {"n": name, "sel": op, "src": src, **o}
    yield ("selections and tables", C())

    def E():  # files written by the user
        for name in list(D11):
            d = D11[name]
            if d["k"] == "sp3" or not d["ev"]:
                continue
            for enc in (0, 1):
                yield {"d": name, "save": "all", "enc": enc}
            if name in ("o2full", "o3full"):
                yield {"d": name, "save": "position"}
        for name in ("o2g", "o3g", "o3m", "n2", "n3"):
            for x in ("sv", "time", "var"):
                yield {"d": name, "save": x, "enc": 1}
            for cut in ([1, 2], [2, 1], [1, 1, 1]):
                for op in JOIN:
                    yield {"d": name, "save": "joined", "cut": cut, "op": op}
        for name in ("o2g", "o3g", "o3m", "o3full", "n2", "n2r", "n3"):
            for gone, src in product(("unlink", "other", "junk", "replace"), ("path", "nc", "both")):
                yield {"d": name, "save": "keep", "gone": gone, "src": src}
            for x in ("same", "sel", "both"):
                yield {"d": name, "save": "inplace", "as": x}
        for o, n in product(("o2g", "o3m", "o3full"), ("n2", "n3", "n2r")):
            for first in (0, 1):
                yield {"d": o, "also": n, "save": "both", "first": first}
    yield ("files of the user", E())


def split_ok(doc, cut):
    """events of one time stay together (their satellites' names depend on that)"""
    i = 0
    for n in cut[:-1]:
        i += n
        if doc["ev"][i]["t"] == doc["ev"][i - 1]["t"]:
            return False
    return True


def join(op, ds):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "concat":
            return must(xarray.concat, tuple(ds), dim="time", _what=f"xarray.concat of {len(ds)} parts")
        return must(xarray.merge, tuple(ds[::-1] if op == "mergerev" else ds), _what=f"xarray.merge of {len(ds)} parts")


def ref(doc, r):
    if doc["k"][0] == "o":
        return obs_cells(doc, **r)[0]
    r = {k: v for k, v in r.items() if k in ("use", "tlim")}
    return nav_cells(doc, **r)[0]


def args(doc, case):
    a, r = opts_of(dict(case, doc=doc))
    if doc["k"][0] == "n":
        a.pop("useindicators", None)
    return a, r


def union(cs):
    out = {}
    for c in cs:
        for v, x in c.items():
            out.setdefault(v, {}).update(x)
    return out


EXT = {"o2": "18o", "o3": "rnx", "n2": "18n", "n3": "rnx"}


def nonan(c):
    return {v: x for v, x in c.items() if x}


def result(exp, n):
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=n, states=n + 1, execs=n, trivial=not any(exp.values()))


def run_join(case, ctx):
    doc = OBS[case["o"]] if "o" in case else NAVS[case["n"]]
    if "N" in case:
        doc = with_times(doc, [30 * i for i in range(case["N"])])
    if "cut" in case:
        parts = [(p, {}) for p in parts_of(doc, case["cut"], case.get("vary", 0))]
    elif "win" in case:
        ts = sorted({e["e"] if "e" in e else e["t"] for e in doc["ev"]})
        parts, i = [], 0
        for k in case["win"]:
            parts.append((doc, {"w": [ts[i], ts[i + k - 1]]}))
            i += k
    else:
        parts = [(doc, {case["by"]: f if isinstance(f, list) else [f]}) for f in case["f"]]
    o = {k: case[k] for k in ("ind", "meas", "use", "fast", "interval") if case.get(k) is not None}
    ds, exp = [], []
    for i, (p, w) in enumerate(parts):
        fn = ctx.write(f"part{i}.{EXT[doc['k']]}", render(p))
        a, r = args(p, {**o, **w})
        ds.append(must(load, fn, _what=f"load({a})", **a))
        exp.append(ref(p, r))
    if case.get("by"):  # a system or measurement that no record has
        ds = [x for x in ds if len(x.data_vars)] or ds[:1]
    exp = union(exp)
    got = join(case["op"], ds)
    diff(nonan(cells(got)), exp, f"{case['op']} of {len(ds)} parts")
    if not case.get("by") and not case.get("vary"):
        t = coords_of(got)[0]
        if case["op"] == "concat" and t != sorted(t):
            raise Violation(f"concat of parts in the order of time has times {[tstr(x) for x in t]}")
    if "win" in case or case.get("by"):
        fn = ctx.write(f"whole.{EXT[doc['k']]}", render(doc))
        a, r = args(doc, o)
        whole = must(load, fn, **a)
        diff(nonan(cells(got)), nonan(cells(whole)), f"{case['op']} of {len(ds)} parts, compared with the whole")
    return result(exp, len(parts) + 1)


def get(doc, case, ctx):
    import georinex as gr
    txt = render(doc)
    a, r = args(doc, case)
    src = case.get("src", "path")
    if src == "stream":
        ds = must(load, io.StringIO(txt), **a)
    else:
        fn = ctx.write(f"doc.{EXT[doc['k']]}", txt)
        if src == "nc":
            must(gr.load, fn, ctx.path("doc.nc"), **a)
            ds = must(load, ctx.path("doc.nc"))
            if case.get("ind"):
                ds = ds.drop_vars([v for v in ds.data_vars if len(v) == 6 and v[0] == "S" and v.endswith("ssi")])
        else:
            ds = must(load, fn, **a)
    return ds, ref(doc, r)


def clean(v):
    return not v.startswith("spare")


def run_sel(case, ctx):
    doc = OBS[case["o"]] if "o" in case else NAVS[case["n"]]
    ds, exp = get(doc, case, ctx)
    op = case["sel"]
    names = sorted({s for x in exp.values() for _, s in x})
    ts = sorted({t for x in exp.values() for t, _ in x})
    got = {}
    if op == "sv":
        for s in names:
            x = must(lambda: ds.sel(sv=s).dropna(dim="time", how="all"), _what=f"sel(sv={s}).dropna")
            t = times_ns(x.time)
            if len(set(t)) != len(t):
                raise Violation(f"sel(sv={s}) has repeated times")
            for v in filter(clean, x.data_vars):
                if x[v].dims != ("time",):
                    raise Violation(f"sel(sv={s}).{v} has dimensions {x[v].dims}")
                got.setdefault(v, {}).update({(a, s): float(b) for a, b in zip(t, x[v].values.tolist()) if not math.isnan(b)})
    elif op == "time":
        for t in ts:
            for form in (np.datetime64(t, "ns"), str(np.datetime64(t, "ns"))):
                x = must(lambda: ds.sel(time=form), _what=f"sel(time={form})")
                g = {}
                for v in filter(clean, x.data_vars):
                    if x[v].ndim == 2 and x[v].sizes["time"] == 1:  # a string selects a list of times
                        x = x.isel(time=0)
                    if x[v].dims != ("sv",):
                        raise Violation(f"sel(time={form}).{v} has dimensions {x[v].dims}")
                    g[v] = {(t, str(s)): float(b) for s, b in zip(x.sv.values.tolist(), x[v].values.tolist()) if not math.isnan(b)}
                diff({v: y for v, y in g.items() if y}, {v: z for v, z in ((v, {k: b for k, b in y.items() if k[0] == t}) for v, y in exp.items()) if z}, f"sel(time={form})")
        got = exp
    elif op == "slice":
        base = parse_t(doc.get("t0", T0))
        for a in ts:
            for b in ts:
                if b < a:
                    continue
                x = must(lambda: ds.sortby("time").sel(time=slice(np.datetime64(a, "ns"), np.datetime64(b, "ns"))), _what="sel(time=slice)")
                diff(nonan(cells(x)), {v: z for v, z in ((v, {k: c for k, c in y.items() if a <= k[0] <= b}) for v, y in exp.items()) if z}, f"sel(time=slice({tstr(a)}, {tstr(b)}))")
        got = exp
    elif op == "frame":
        df = must(ds.to_dataframe, _what="to_dataframe()")
        if set(df.index.names) != {"time", "sv"}:
            raise Violation(f"to_dataframe() is indexed by {df.index.names}")
        df = df.reset_index()
        t = times_ns(df["time"].to_numpy())
        s = [str(x) for x in df["sv"].tolist()]
        if len(set(zip(t, s))) != len(t):
            raise Violation("to_dataframe() has repeated rows")
        for v in filter(clean, (c for c in df.columns if c not in ("time", "sv"))):
            got[v] = {(a, b): float(c) for a, b, c in zip(t, s, df[v].tolist()) if not math.isnan(c)}
    else:
        for v in filter(clean, ds.data_vars):
            se = must(ds[v].to_series, _what=f"{v}.to_series()").dropna()
            i = se.index.names.index("time")
            got[v] = {(ns(k[i].to_pydatetime()), str(k[1 - i])): float(c) for k, c in se.items()}
    diff(nonan(got), exp, f"{op} of the dataset")
    return result(exp, 2)


def run_keep(case, ctx):
    """what is in memory does not change with the file; a NetCDF file can be rewritten with what it loads as"""
    import georinex as gr
    doc = D11[case["d"]]
    grp = "OBS" if doc["k"][0] == "o" else "NAV"
    fn = ctx.write(f"doc.{EXT[doc['k']]}", render(doc))
    exp = nonan(ref(doc, {}))
    nc = ctx.path("doc.nc")
    other = D11["n3j" if grp == "OBS" else "o3one"]
    oth = ctx.write("other.rnx", render(other))
    if case["save"] == "inplace":
        must(gr.load, fn, nc)
        if case["as"] == "both":
            must(gr.load, oth, nc)
        ds = must(gr.load, nc)
        ds = ds[grp.lower()] if case["as"] == "both" else ds
        if case["as"] == "sel":
            s = sorted({s for x in exp.values() for _, s in x})[:1]
            ds = ds.sel(sv=s)
            exp = nonan({v: {k: c for k, c in x.items() if k[1] in s} for v, x in exp.items()})
        must(ds.to_netcdf, nc, mode="a" if case["as"] == "both" else "w", group=grp, _what="to_netcdf into the file that was loaded")
        back = must(gr.load, nc)
        diff(nonan(cells(back[grp.lower()] if case["as"] == "both" else back)), exp, "file rewritten with what it loads as")
        return result(exp, 3)
    src = case["src"]
    if src != "path":
        must(gr.load, fn, nc)
        if src == "both":
            must(gr.load, oth, nc)
    f = fn if src == "path" else nc
    ds = must(gr.load, f)
    ds = ds[grp.lower()] if src == "both" else ds
    d2 = dict(doc, ev=doc["ev"][1:])
    if doc["k"][0] == "o":
        d2["types"] = d2["types"][::-1] if isinstance(d2["types"], list) else {s: x[::-1] for s, x in d2["types"].items()}
    if case["gone"] == "unlink":
        f.unlink()
    elif case["gone"] == "junk":
        f.write_bytes(b"junk" * 9)
    elif src == "path":
        f.write_text(render(d2))
    else:
        new = ctx.write(f"new.{EXT[doc['k']]}", render(d2))
        if case["gone"] == "other":  # written in place
            for g in ("OBS", "NAV") if src == "both" else (grp,):
                must(must(gr.load, new).to_netcdf, f, mode="w" if g == "OBS" or src == "nc" else "a", group=g, _what="to_netcdf")
        else:
            must(gr.load, new, f, overwrite=True)
    diff(nonan(cells(ds)), exp, f"loaded dataset after its file was changed ({case['gone']})")
    return result(exp, 3)


def run_save(case, ctx):
    if case["save"] in ("keep", "inplace"):
        return run_keep(case, ctx)
    import georinex as gr
    doc = D11[case["d"]]
    grp = "OBS" if doc["k"][0] == "o" else "NAV"
    out = ctx.path("process.nc")
    fn = ctx.write(f"doc.{EXT[doc['k']]}", render(doc))
    ds = must(load, fn)
    exp = ref(doc, {})
    what = case["save"]
    if what == "sv":
        s = sorted({s for x in exp.values() for _, s in x})[1:]
        ds = must(lambda: ds.sel(sv=s), _what="sel(sv=)")
        exp = {v: {k: c for k, c in x.items() if k[1] in s} for v, x in exp.items()}
    elif what == "time":
        t = sorted({t for x in exp.values() for t, _ in x})[-1]
        ds = must(lambda: ds.sel(time=[np.datetime64(t, "ns")]), _what="sel(time=)")
        exp = {v: {k: c for k, c in x.items() if k[0] == t} for v, x in exp.items()}
    elif what == "var":
        w = sorted(exp)[:2]
        ds = must(lambda: ds[w], _what=f"[{w}]")
        exp = {v: exp[v] for v in w}
    elif what == "joined":
        doc = dict(doc, ev=doc["ev"][:3]) if doc["k"] != "n3" else dict(doc, ev=[{"sv": "G01", "t": 0}, {"sv": "R02", "t": 900}, {"sv": "E05", "t": 1200}])
        if doc["k"] == "n2":
            doc = dict(doc, ev=[{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200}, {"sv": "G01", "t": 9000}])
        parts, exps = [], []
        for i, p in enumerate(parts_of(doc, case["cut"])):
            f = ctx.write(f"p{i}.{EXT[doc['k']]}", render(p))
            n = ctx.path(f"p{i}.nc")
            must(gr.load, f, n)
            with must(load, n, _what="load of the converted part") as x:
                parts.append(x.load())
            exps.append(ref(p, {}))
        ds, exp = join(case["op"], parts), union(exps)
    exp = nonan(exp)
    enc = {v: {"zlib": True, "complevel": 9} for v in ds.data_vars} if case.get("enc") else None
    todo = [(ds, grp, enc, exp)]
    if what == "both":
        d2 = D11[case["also"]]
        ds2 = must(load, ctx.write(f"other.{EXT[d2['k']]}", render(d2)))
        todo.append((ds2, "NAV", None, nonan(ref(d2, {}))))
        if case["first"]:
            todo.reverse()
    for i, (x, g, e, _) in enumerate(todo):
        must(x.to_netcdf, out, mode="a" if i else "w", group=g, encoding=e, _what=f"to_netcdf(group={g})")
    back = must(load, out, _what="load of the saved file")
    if what == "both":
        if not isinstance(back, dict) or set(back) != {"obs", "nav"}:
            raise Violation(f"load of a file with both groups is {type(back).__name__} {list(back)}")
        for x, g, _, e in todo:
            diff(nonan(cells(back[g.lower()])), e, f"load of the saved file, {g}")
    else:
        if isinstance(back, dict):
            raise Violation("load of a file with one group is a dict")
        diff(nonan(cells(back)), exp, "load of the saved file")
        with must(xarray.open_dataset, out, group=grp) as x:
            diff(nonan(cells(x)), exp, "group of the saved file")
            for k in ds.attrs:
                for b, w in ((back, "load"), (x, "open_dataset")):
                    if k not in b.attrs or not attr_eq(ds.attrs[k], b.attrs[k]):
                        raise Violation(f"{w} of the saved file: attribute {k} is {b.attrs.get(k)!r}, should be {ds.attrs[k]!r}")
        if what == "position":
            import netCDF4
            with netCDF4.Dataset(out) as f:
                p = [float(v) for v in f["OBS"].getncattr("position")]
            if p != [float(v) for v in ds.position] or len(p) != 3:
                raise Violation(f"position in the file is {p}, of the dataset {ds.position}")
            with xarray.open_dataset(out, group="OBS") as x:
                if [float(v) for v in x.position] != p:
                    raise Violation(f"position is {x.position}, should be {p}")
        back.close()
    return result(exp, 4)


def run(case, ctx):
    return (run_save if "save" in case else run_sel if "sel" in case else run_join)(case, ctx)
