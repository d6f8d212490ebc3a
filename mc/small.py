"""small documents shared by the option-lattice checks"""
from datetime import datetime, timedelta
from .core import Obs, Violation, digest
from .docs import NOINT, DEFHDR, obs_cells, obs_sats, parse_t, render
from .observe import check_obs, must

T0 = "2018-07-29T00:00:00"


def eps(times, sets, pats):
    return [{"e": t, "s": s, "p": p} for t, s, p in zip(times, sets, pats)]


SETS = [["G01", "R02", "E03"], ["R02", "G01"], ["E03", "G04"], ["G04", "R02", "G01"], ["G01"], ["E03", "R05"], ["G01", "R02"]]
PATS = ["b", "v.l", "sb", "N.v", "b", ".bs", "lv"]
TYPES2 = ["C1", "L1", "P2", "L2", "S1", "D1", "C5"]
TYPES3 = {"G": ["C1C", "L1C", "S1C", "C2W", "L5Q"], "R": ["L1C", "C1C", "D1C"], "E": ["C1X", "L1X", "L8X", "S1X"]}

OBS = {
    # RINEX 2, one system
    "o2g": {"k": "o2", "sys": "G", "types": TYPES2, "hdr": NOINT,
            "ev": eps([0, 30, 60, 90, 120], [["G01", "G02"], ["G02"], ["G03", "G01"], ["G01"], ["G02", "G01", "G07"]], PATS)},
    "o2m": {"k": "o2", "sys": "M", "types": TYPES2[:6], "hdr": DEFHDR,
            "ev": eps([0, 30, 60, 90, 120], SETS, PATS)},
    "o3m": {"k": "o3", "sys": "M", "types": TYPES3, "hdr": DEFHDR, "ev": eps([0, 30, 60, 90, 120], SETS, PATS)},
    "o3g": {"k": "o3", "sys": "G", "types": {"G": TYPES3["G"]}, "hdr": NOINT,
            "ev": eps([0, 30, 60, 90, 120], [["G01", "G02"], ["G02"], ["G03", "G01"], ["G01"], ["G02", "G01", "G07"]], PATS)},
}


def with_times(doc, times):
    d = dict(doc)
    ev = [e for e in doc["ev"] if "e" in e]
    d["ev"] = [dict(ev[i % len(ev)], e=t) for i, t in enumerate(times)]
    return d


def tl(doc, a, b):
    """a, b in seconds after T0 -> datetimes"""
    t = parse_t(doc.get("t0", T0))
    return t + timedelta(milliseconds=round(a * 1000)), t + timedelta(milliseconds=round(b * 1000))


def fmt(t: datetime, form: str):
    if form == "dt":
        return t
    if form == "iso":
        return t.isoformat()
    if form == "sp":
        return t.isoformat(sep=" ")
    if form == "short":  # no leading zero in the hour
        return f"{t.year}-{t.month:02d}-{t.day:02d} {t.hour}:{t.minute:02d}:{t.second:02d}" + (f".{t.microsecond:06d}" if t.microsecond else "")
    if form == "date":
        return f"{t:%Y-%m-%d}"
    if form == "hm":
        return f"{t:%Y-%m-%dT%H:%M}"
    if form == "ms":
        return t.isoformat(timespec="milliseconds")
    if form == "long":
        return f"{t:%Y-%m-%dT%H:%M:%S.%f}"
    if form == "name":
        return f"{t:%d %b %Y %H:%M:%S.%f}"
    if form == "us":  # month first
        return f"{t.month}/{t.day}/{t.year} {t.hour}:{t.minute:02d}:{t.second:02d}" + (f".{t.microsecond:06d}" if t.microsecond else "")
    raise ValueError(form)


def load(fn, **k):
    """georinex.load; signal strength of the RINEX 3 signal strengths themselves (S..ssi) is nobody's business"""
    import georinex as gr

    ds = gr.load(fn, **k)
    if k.get("useindicators") and not isinstance(ds, dict):
        ds = ds.drop_vars([v for v in ds.data_vars if len(v) == 6 and v[0] == "S" and v.endswith("ssi")])
    return ds


def opts_of(case):
    """options in their JSON form -> (load arguments, reference arguments)"""
    a, r = {}, {}
    if case.get("use") is not None:
        u = case["use"]
        a["use"] = {"str": lambda: u[0], "list": lambda: list(u), "tuple": lambda: tuple(u), "set": lambda: set(u),
                    "frozenset": lambda: frozenset(u)}[case.get("uform", "list")]()
        r["use"] = u
    if case.get("meas") is not None:
        m = case["meas"]
        a["meas"] = {"str": lambda: m[0], "list": lambda: list(m), "tuple": lambda: tuple(m)}[case.get("mform", "list")]()
        r["meas"] = m
    if case.get("ind"):
        a["useindicators"] = True
        r["ind"] = True
    if "fast" in case:
        a["fast"] = case["fast"]
    if case.get("interval") is not None:
        i = case["interval"]
        td = timedelta(milliseconds=round(i * 1000))
        a["interval"] = {"td": td, "int": int(i), "float": float(i)}[case.get("iform", "float")]
        r["interval"] = round(i * 1000) * 1_000_000
    if case.get("w") is not None:
        t = tl(case["doc"], *case["w"])
        a["tlim"] = tuple(fmt(x, case.get("form", "dt")) for x in t)
        r["tlim"] = t
    return a, r


def dtypes(d):
    at = {t for v in (d["types"].values() if d["k"] == "o3" else [d["types"]]) for t in v}
    return at | {t + x for t in at for x in ("lli", "ssi")}


def run_obs(case, ctx, drop=()):
    """load case["doc"] with the options of the case; compare with the reference"""
    d = case["doc"]
    txt = render(d)
    fn = ctx.write("doc.18o", txt)
    a, r = opts_of(case)
    ds = must(load, fn, _what=f"load({a})", **a)
    exp, times = obs_cells(d, **r)
    try:
        check_obs(ds, exp, dtypes(d), set(times), obs_sats(d, r.get("use")), f"load({a})")
    except Violation as e:
        e.files["18o"] = txt
        raise
    return ds, exp


def obs_result(case, exp):
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(case["doc"]["ev"]),
               states=len(case["doc"]["ev"]) + 1, trivial=not exp)
