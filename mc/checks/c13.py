"""C13: time, header and info queries agree with the load."""
import io
from itertools import permutations, product, combinations
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, LINES, NOINT, POS, SYS2, at, hl, ns, obs_epochs, render, render_sp3
from ..observe import must, times_ns, tstr
from ..small import OBS, TYPES2, TYPES3
from . import c01, c02, c03, c04

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of bounded event histories and header line sets; gettime, rinexinfo and rinexheader compared with the reference model, from every source"
RULE = "one case = one document and source: gettime, rinexinfo and rinexheader compared with the abstract document; trivial = no record"
ASSUMPTIONS = ["repeated header labels of navigation files are reported at least once", "the documents of C01-C04 and header line subsets"]
CHUNK = 120

ALLH = ["com", "com2", "com3", "marker", "obsv", "rec", "ant", "pos", "delta", "types", "int", "tfo", "tlo", "rcv", "leap", "nsat"]


def spaces(tier):
    big = tier == "thorough"
    src = ("path", "str", "stream", "file")

    def A():
        for i, m in enumerate((c01, c02, c03, c04)):
            for name, cs in m.spaces(tier if tier == "thorough" else "quick"):
                for n, c in enumerate(cs):
                    if not big and i < 2 and n % 2 and name in ("epochs", "type counts", "headers and line ends"):
                        continue
                    yield {"doc": c, "src": src[n % 3]}
    yield ("documents of C01-C04", A())

    def B():  # header lines: every subset of the optional ones, orders, from every source
        ev = OBS["o2g"]["ev"][:2]
        opt = ["com", "rec", "pos", "int", "tfo", "tlo", "com3"]
        for n in range(len(opt) + 1):
            for hs in combinations(opt, n):
                for k, ty, s in product(("o2", "o3"), (1, 10, 14), src):
                    t = {"G": c02.ty(ty)} if k == "o3" else c01.OBS2[:ty]
                    h = list(hs[: n // 2]) + ["types"] + list(hs[n // 2 :])
                    yield {"doc": {"k": k, "sys": "G", "types": t, "hdr": h, "ev": ev}, "src": s}
        hs = ["types", "tfo", "int", "pos", "com2"]
        for h in permutations(hs):
            for k, s in product(("o2", "o3"), src):
                yield {"doc": {"k": k, "sys": "M" if k == "o3" else "G", "types": TYPES3 if k == "o3" else c01.OBS2[:11], "hdr": list(h), "ev": ev}, "src": s}
        for s in src:
            for k in ("o2", "o3"):
                yield {"doc": {"k": k, "sys": "G", "types": {"G": ["C1C"]} if k == "o3" else ["C1"], "hdr": ALLH, "ev": []}, "src": s}
    yield ("observation headers", B())

    def C():  # values in the header
        ev = OBS["o2g"]["ev"][:1]
        for k in ("o2", "o3"):
            base = {"k": k, "sys": "G", "types": {"G": ["C1C", "L1C"]} if k == "o3" else ["C1", "L1"], "hdr": DEFHDR + ["tlo", "nsat"], "ev": ev}
            for iv in (1, 30, 0.05, 0.2, 15, 900, 86400):
                yield {"doc": dict(base, interval=iv), "src": "path"}
            for p in ((0.0, 0.0, 6378137.0), (-2148744.1234, 4426641.5678, -4044656.9012), (6378137.0, 0.0, 0.0), (-99999.9999, -1234567.8, 6356752.3)):
                yield {"doc": dict(base, pos=p), "src": "stream"}
            for t in ("1980-01-06T00:00:00", "1999-12-31T23:59:59.500000", "2020-02-29T12:34:56.789000", "2079-12-31T23:59:30"):
                yield {"doc": dict(base, t0=t), "src": "path"}
            for sysc in "GREJCIM" + (" " if k == "o2" else ""):
                for ver in ("2.00", "2.10", "2.11", "2.12", "1.00") if k == "o2" else ("3.00", "3.01", "3.02", "3.03", "3.04", "3.05"):
                    for s in src:
                        yield {"doc": dict(base, sys=sysc, ver=ver, types={x: ["C1C", "L1C"] for x in "GREJCI"} if k == "o3" else ["C1", "L1"],
                                           ev=[{"e": 0, "s": [("G" if sysc in " M" else sysc) + "01"]}]), "src": s}
    yield ("header values", C())

    def D():  # navigation headers
        ion2 = [hl("    0.1118D-07  0.2235D-07 -0.5960D-07 -0.1192D-06", "ION ALPHA"), hl("    0.1167D+06  0.1802D+06 -0.1311D+06 -0.4588D+06", "ION BETA"),
                hl("    18", "LEAP SECONDS"), hl("a comment", "COMMENT"), hl("    0.0000D+00  0.0000D+00   319488     1000", "DELTA-UTC: A0,A1,T,W")]
        ion3 = [hl("GPSA   0.1118E-07  0.2235E-07 -0.5960E-07 -0.1192E-06", "IONOSPHERIC CORR"), hl("GPSB   0.1167E+06  0.1802E+06 -0.1311E+06 -0.4588E+06", "IONOSPHERIC CORR"),
                hl("GAL    0.1118E-07  0.2235E-07 -0.5960E-07", "IONOSPHERIC CORR"), hl("    18", "LEAP SECONDS"), hl("a comment", "COMMENT"),
                hl("GPUT  0.0000000000E+00 0.000000000E+00 319488 1000", "TIME SYSTEM CORR")]
        for s in src:
            for n in range(6):
                for h in combinations(ion2, n):
                    for ft in "NGE":
                        yield {"doc": {"k": "n2", "ft": ft, "hdr": list(h), "ev": c03.recs(ft, [(1, 7200), (2, 0), (1, 0)])}, "src": s}
                for h in combinations(ion3, n):
                    for sysc in "MGRECJSI":
                        yield {"doc": {"k": "n3", "sys": sysc, "hdr": list(h), "ev": [{"sv": ("G" if sysc == "M" else sysc) + "05", "t": t} for t in (600, 0, 600)]}, "src": s}
    yield ("navigation headers", D())


def expect_info(d):
    k = d["k"]
    if k[0] == "o":
        return {"version": float(d.get("ver", "3.03" if k == "o3" else "2.11")), "rinextype": "obs", "filetype": "O", "systems": d.get("sys", "M")}
    if k == "n2":
        return {"version": float(d.get("ver", "2.11")), "rinextype": "nav", "filetype": d["ft"], "systems": SYS2[d["ft"]]}
    return {"version": float(d.get("ver", "3.03")), "rinextype": "nav", "filetype": "N", "systems": d.get("sys", "M")}


def check_info(i, d, what, derived=False):
    for k, v in expect_info(d).items():
        g = i.get(k)
        if k == "systems" and v == " " and derived:  # RINEX 2: blank is GPS
            v = "G" if g == "G" else " "
        if g != v:
            raise Violation(f"{what}: {k} is {g!r}, should be {v!r}")


def check_header(h, d, txt, what):
    check_info(h, d, what, True)
    lines = txt.replace("\r", "").split("\n")
    labels = {}
    for ln in lines[1:]:
        lab = ln[60:].strip()
        if lab == "END OF HEADER":
            break
        labels.setdefault(lab, []).append(ln[:60])
    for lab, cs in labels.items():
        if lab in ("SYS / # / OBS TYPES", "# / TYPES OF OBSERV", "# OF SATELLITES"):
            continue
        if lab not in h:
            raise Violation(f"{what}: the header label {lab!r} is missing")
        if lab in ("IONOSPHERIC CORR", "TIME SYSTEM CORR"):
            if sorted(h[lab]) != sorted(c[:4].strip() for c in cs):
                raise Violation(f"{what}: {lab} has {sorted(h[lab])}")
            for c in cs:
                n = 3 if c.startswith("GAL") else 4
                if lab[0] == "I" and not np.allclose(h[lab][c[:4].strip()], [float(c[5 + 12 * i : 17 + 12 * i]) for i in range(n)], rtol=1e-12, atol=0):
                    raise Violation(f"{what}: {lab} {c[:4]} is {h[lab][c[:4].strip()]}, should be {c!r}")
            continue
        if d["k"][0] == "n":
            if h[lab].strip() not in [c.strip() for c in cs]:
                raise Violation(f"{what}: {lab} is {h[lab]!r}, should be {cs}")
        else:
            g = h[lab]
            for c in cs:  # several lines of one label follow each other
                i = g.find(c.strip())
                if i < 0:
                    raise Violation(f"{what}: {lab} is {h[lab]!r}, should have {c!r}")
                g = g[i + len(c.strip()) :]
            if g.strip():
                raise Violation(f"{what}: {lab} is {h[lab]!r}, should be {cs}")
    if d["k"][0] != "o":
        return
    hs = d.get("hdr", DEFHDR)
    exp = {k: list(v) for k, v in d["types"].items()} if d["k"] == "o3" else list(d["types"])
    if "types" in hs and h.get("fields") != exp:
        raise Violation(f"{what}: observation types are {h.get('fields')}, should be {exp}")
    if "int" in hs and h.get("interval") != round(d.get("interval", 30), 3):
        raise Violation(f"{what}: interval is {h.get('interval')}, should be {d.get('interval', 30)}")
    if "int" not in hs and "interval" in h:
        raise Violation(f"{what}: interval is {h['interval']}, the header has none")
    if "pos" in hs and not np.array_equal(np.asarray(h.get("position", [np.nan])), np.asarray([round(x, 4) for x in d.get("pos", POS)])):
        raise Violation(f"{what}: position is {h.get('position')}, should be {d.get('pos', POS)}")
    if "pos" not in hs and "position" in h:
        raise Violation(f"{what}: position is {h['position']}, the header has none")
    t0 = ns(at(d, d.get("tfo", 0)))
    if "tfo" in hs and (h.get("t0") is None or ns(h["t0"]) != t0):
        raise Violation(f"{what}: first observation time is {h.get('t0')}, should be {tstr(t0)}")
    if d["k"] == "o2" and "tlo" in hs and ns(h["t1"]) != t0:
        raise Violation(f"{what}: last observation time is {h.get('t1')}, should be {tstr(t0)}")
    if not {"tfo", "tfo_nosys"} & set(hs) and "t0" in h:
        raise Violation(f"{what}: first observation time is {h['t0']}, the header has none")


def run(case, ctx):
    import georinex as gr
    d = case["doc"]
    txt = render(d)
    fn = ctx.write("doc." + {"o2": "18o", "o3": "rnx", "n2": "18n", "n3": "rnx"}[d["k"]], txt)
    s = case["src"]
    stream = io.StringIO(txt)
    get = {"path": lambda: fn, "str": lambda: str(fn), "stream": lambda: stream, "file": lambda: open(fn, encoding="ascii")}[s]
    if d["k"][0] == "o":
        exp = [x[0] for x in obs_epochs(d)]
    else:
        exp = sorted({ns(at(d, r["t"])) for r in d["ev"] if "j" not in r})
    t = times_ns(must(gr.gettime, get() if s != "file" else fn, _what="gettime"))
    if t != exp:
        raise Violation(f"gettime returns {[tstr(x) for x in t][:20]}, should be {[tstr(x) for x in exp][:20]}")
    for f, chk in ((gr.rinexinfo, check_info), (gr.rinexheader, lambda r, d, w: check_header(r, d, txt, w))):
        g = get()
        try:
            r = must(f, g, _what=f.__name__)
        finally:
            if s == "file":
                g.close()
        chk(r, d, f.__name__)
    return Obs(digest((exp, str(d.get("types")), str(d.get("hdr")), expect_info(d))), transitions=len(d["ev"]), states=len(d["ev"]) + 1, execs=3, trivial=not exp)
