"""C24: invalid requests and inputs are refused, not misread."""
import bz2
import gzip
import io
import zipfile
from datetime import datetime, timedelta
from functools import lru_cache
from itertools import product
from pathlib import Path
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import hl, render
from ..observe import attempt, cells, must
from ..small import OBS
from .c23 import DOCS

T = {"a": datetime(2018, 7, 29, 0, 0, 30), "b": datetime(2018, 7, 29, 0, 1)}
T.update(us=T["a"] + timedelta(microseconds=1), ms=T["a"] + timedelta(milliseconds=1), half=T["a"] + timedelta(milliseconds=500), s=T["a"] + timedelta(seconds=1), day=T["a"] + timedelta(days=1), year=T["a"].replace(year=2019))
FINE = [[x, y] for x, y in (("us", "a"), ("ms", "a"), ("half", "a"), ("s", "a"), ("day", "a"), ("year", "a"), ("ms", "us"), ("s", "half"), ("year", "day"))]  # stop a little before start

ID = "C24"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every single-character corruption of label and version of the first line, every kind of foreign content in every container, every invalid argument; each must be refused"
RULE = "one case = one invalid content or request: load, gettime, rinexheader and rinexinfo (as far as they are concerned) raise, with the right exception where the property names one, and no output file appears or changes; " \
       "trivial = the corruption leaves a valid first line"
ASSUMPTIONS = ["a first line is valid if its label is right and its version a number from 1 to 3, as other corruptions of a single character cannot be noticed"]
CHUNK = 60

LAB = {"RINEX VERSION / TYPE", "CRINEX VERS   / TYPE"}
KINDS = ("o2m", "o3m", "n2", "n3", "crx2", "crx3", "sp3")
EXT = {"o2m": "18o", "o3m": "rnx", "n2": "18n", "n3": "rnx", "crx2": "18d", "crx3": "crx", "sp3": "sp3"}
CONT = ("", ".gz", ".bz2", ".zip", ".Z")


@lru_cache(maxsize=None)
def text(k):
    from hatanaka import rnx2crx
    if k.startswith("crx"):
        return rnx2crx(render(DOCS["o2m" if k == "crx2" else "o3m"]))
    return render(DOCS[k])


def pack(b, c):
    from ncompress import compress
    if c == ".gz":
        return gzip.compress(b)
    if c == ".bz2":
        return bz2.compress(b)
    if c == ".Z":
        return compress(b)
    if c == ".zip":
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w") as z:
            z.writestr("a.txt", b)
        return f.getvalue()
    return b


TEXTS = {
    "empty": "", "nl": "\n", "nls": "\n" * 9, "nls10": "\n" * 10, "nls11": "\n" * 11, "nls50": "\n" * 50, "sp": " ", "sps": " " * 80 + "\n", "spsn": (" " * 80 + "\n") * 12, "tab": "\t\n\t\n", "cr": "\r\n" * 30,
    "lorem": "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut\n" * 5, "a": "a", "ab": "ab\n", "num": "2\n", "num2": "2.11\n", "num3": "3.05   x\n", "csv": "time,lat,lon\n2018,1,2\n3,4,5\n",
    "csvnum": "3.141,2.718,1.414,1.618,0.577,2.302,4.669,1.202,2.685,0.915,0.764,0.261\n" * 4, "sent": "3.5 kilometres from Oslo, north of the river, is the site\nwhere\n", "sentN": "2 of the files were Not readable, and then we found Oslo.\n",
    "sent60": "1        chapter    Observations and what they tell, part II.\n", "col": "     2.11           O                   M", "colN": "     3.03           N                   M\n", "json": '{"version": 2.11, "type": "OBSERVATION DATA", "x": "RINEX VERSION / TYPE"}\n', "xml": "<?xml version='1.0'?><rinex/>\n",
    "hash": "#\n", "hash2": "# a comment in a script\nimport x\n", "sp3b": None, "sp3e": None, "sp3x": None, "sh": "#!/bin/bash\necho\n", "hdrlate": "\n" * 12 + "LATE", "comment1st": hl("a comment", "COMMENT") + "\nLATE", "eoh": hl("", "END OF HEADER") + "\n", "html": "<!DOCTYPE html>\n<html>404 Not Found</html>\n",
    "sp3hash": "#A version\n", "rinexobs_nolabel": None, "met": None, "clk": None, "ionex": None, "antex": "     1.4            M                                       ANTEX VERSION / SYST\n", "blankver": None, "v0": None, "v4": None, "v4n": None, "v10": None, "v211": None, "vm2": None, "vinf": None, "vnan": None, "v1e9": None,
    "v4sp": None, "geo": None, "summary": None, "nodots": None, "onlylabel": hl("", "RINEX VERSION / TYPE") + "\n", "labelshift": None, "labellow": None,
}


@lru_cache(maxsize=None)
def foreign(k):
    if TEXTS.get(k) is not None:
        return TEXTS[k].replace("LATE", text("o2m"))
    o2, o3, n3, sp3 = text("o2m"), text("o3m"), text("n3"), text("sp3")
    v = lambda s, t=o2: f"{s:>9s}" + t[9:]
    return {
        "sp3b": lambda: "#b" + sp3[2:], "sp3e": lambda: "#e" + sp3[2:], "sp3x": lambda: "##" + sp3[2:], "rinexobs_nolabel": lambda: o2[:60] + "\n" + o2[81:], "met": lambda: hl("     2.11           METEOROLOGICAL DATA", "RINEX VERSION / TYPE") + o2[80:],
        "clk": lambda: hl("     3.00           CLOCK DATA", "RINEX VERSION / TYPE").replace("CLOCK", "KLOCK") + o3[80:], "ionex": lambda: hl("     1.0            IONOSPHERE MAPS     GPS", "IONEX VERSION / TYPE") + o2[80:],
        "blankver": lambda: v(""), "v0": lambda: v("0.99"), "v4": lambda: v("4.00", o3), "v4n": lambda: v("4.01", n3), "v10": lambda: v("10.00", o3), "v211": lambda: v("211"), "vm2": lambda: v("-2.11"), "vinf": lambda: v("inf"), "vnan": lambda: v("nan", n3), "v1e9": lambda: v("1e9"), "v4sp": lambda: v(" 4 "),
        "geo": lambda: hl("     2.11           H: GEO NAV MSG DATA", "RINEX VERSION / TYPE") + text("n2")[80:], "summary": lambda: hl("     2.10           S: SUMMARY DATA", "RINEX VERSION / TYPE") + o2[80:], "nodots": lambda: v("2,11"),
        "labelshift": lambda: o2[:59] + o2[60:], "labellow": lambda: o2[:60] + o2[60:80].lower() + o2[80:],
    }[k]()


KNOWS = {"met", "clk", "summary", "geo", "v0", "v4", "v4n", "v10", "v211", "vm2", "v1e9", "v4sp"}  # identified by rinexinfo, not handled
BINS = {"all": bytes(range(256)) * 8, "zeros": bytes(500), "ff": b"\xff" * 500, "elf": b"\x7fELF" + bytes(range(200)), "pdf": b"%PDF-1.4\n%\xe2\xe3\xcf\xd3\n", "gz2": b"\x1f\x8b", "gz4": b"\x1f\x8b\x08\x00", "bz3": b"BZh", "bz10": b"BZh91AY&SY", "pk": b"PK\x03\x04", "pk2": b"PK", "z2": b"\x1f\x9d", "z3": b"\x1f\x9d\x90",
        "png": b"\x89PNG\r\n\x1a\n" + bytes(100), "hdf": b"\x89HDF\r\n\x1a\n" + bytes(100), "cdf": b"CDF\x01" + bytes(100), "utf16": "Lorem ipsum 2.11".encode("utf-16"), "nulver": b"\0\0\0002.11" + bytes(90), "xz": b"\xfd7zXZ\x00" + bytes(50), "lat": bytes(range(128, 256)) * 4}


def spaces(tier):
    big = tier == "thorough"

    def A():  # foreign content in every container, file name and stream
        for k in TEXTS:
            for src in ("path", "str", "stream"):
                for ext in ("18o", "rnx", "sp3", "txt", "nc") if src == "path" else ("18o",):
                    yield {"t": k, "src": src, "ext": ext}
            for c in CONT[1:]:
                yield {"t": k, "src": "path", "ext": "18o" + c, "c": c}
                yield {"t": k, "src": "path", "ext": "sp3" + c, "c": ""}
        for k in BINS:
            for ext in ("18o", "rnx.gz", "18o.Z", "rnx.zip", "18n.bz2", "nc", "sp3", "x", "crx"):
                yield {"b": k, "src": "path", "ext": ext}
            for c in CONT[1:]:
                yield {"b": k, "src": "path", "ext": "rnx" + c, "c": c}
            yield {"b": k, "src": "stream"}
    yield ("foreign content", A())

    def B():  # every single-character corruption of label and version
        lab = "xR /_0-" + ("aeiou#.\t" if big else "")
        ver = " .x0123456789-+eE_,D#i" + ("nOf\t/" if big else "")
        for k in KINDS[:6]:
            for src in ("path", "stream"):
                for i in range(60, 80):
                    for ch in lab:
                        yield {"k": k, "src": src, "sub": [[i, ch]]}
                    yield {"k": k, "src": src, "del": i}
                    if i < 79:
                        yield {"k": k, "src": src, "swap": i}
                    yield {"k": k, "src": src, "cut": i}
                for i in range(9):
                    for ch in ver:
                        yield {"k": k, "src": src, "sub": [[i, ch]]}
                    yield {"k": k, "src": src, "del": i}
                    yield {"k": k, "src": src, "ins": [i, "x"]}
                    yield {"k": k, "src": src, "ins": [i, " "]}
                if k.startswith("crx"):
                    for i in range(20, 40):
                        for ch in "xc ":
                            yield {"k": k, "src": src, "sub": [[i, ch]]}
                        yield {"k": k, "src": src, "swap": i}
                if big:
                    for i, j in product(range(9), range(9)):
                        for a, b in product(" .x0123456789-", repeat=2):
                            if i < j:
                                yield {"k": k, "src": src, "sub": [[i, a], [j, b]]}
        for i in range(60, 80):
            for c in CONT[1:]:
                for k in ("o2m", "n3", "crx3"):
                    yield {"k": k, "src": "path", "sub": [[i, "x"]], "c": c}
                    yield {"k": k, "src": "path", "sub": [[i % 9, "?"]], "c": c}
        for ch in map(chr, range(32, 127)):  # SP3 version letter, and the # before it
            yield {"k": "sp3", "src": "path", "sub": [[1, ch]]}
            yield {"k": "sp3", "src": "path", "sub": [[0, ch]]}
        types = "BDEFGHIJKLMPQRSTUVWXYZ 0:_"
        for k in ("o2m", "o3m"):
            for ch in types:
                for src in ("path", "stream"):
                    yield {"k": k, "src": src, "sub": [[20, ch]], "type": 1}
    yield ("first line", B())

    def C():  # requests
        t = {"a": "2018-07-29T00:00:30", "b": "2018-07-29T00:01:00"}
        bad_t = [["b", "a"], ["a"], ["a", "a", "b"], ["b", "b", "a"], [], ["a", None], [None, "a"], [None, None], ["x", "y"], ["a", "x"], ["x", "b"], [5, 6], ["a", 6], [6.0, "b"]]
        for k in KINDS[:4]:
            for bt in bad_t:
                for form in ("dt", "str", "mix", "short"):
                    for seq in ("tuple", "list"):
                        for o in (None, "new", "dir", "old"):
                            yield {"k": k, "tlim": bt, "form": form, "seq": seq, "o": o}
        for k, bt, form, seq in product(KINDS[:4], FINE, ("dt", "str"), ("tuple", "list")):
            for o in (None, "new", "dir", "old"):
                yield {"k": k, "tlim": bt, "form": form, "seq": seq, "o": o}
        ivs = ["-1", "-0.001", "-30.0", "td-1", "td-1d", "str", "str30", "list", "tuple", "dict", "dt", "none()", "np-1", "neginf", "complex", "bytes", "td-us"]
        for k in ("o2m", "o3m"):
            for iv in ivs:
                for o in (None, "new", "dir", "old"):
                    for fast in (True, False):
                        for w in (0, 1):
                            yield {"k": k, "iv": iv, "o": o, "fast": fast, "w": w}
        for k in KINDS:
            for o in ("x.txt", "x", "x.nc.gz", "x.ncx", "x.NC ", "nodir/x", "nodir/deep/x.hdf5", "x.h5", ".nc", "nodir/x.nc", "x.txt/"):
                for kind in ("Path", "str"):
                    for w in (0, 1):
                        yield {"k": k, "out": o, "kind": kind, "w": w}
        for n in ("missing.18o", "missing.rnx", "missing.nc", "missing.sp3", "missing.18o.gz", "missing.zip", "missing.Z", "missing.bz2", "nodir/missing.18o", "missing", "missing.crx.gz", "dir", "dir.nc", "dir.18o"):
            for src in ("path", "str"):
                for o in (None, "new", "dir", "old"):
                    yield {"miss": n, "src": src, "o": o}
        for x in ("None", "int", "bytes", "list", "lines", "dict", "float"):
            for o in (None, "new", "old"):
                yield {"obj": x, "o": o}
        for k in ("o2m", "o3m", "n3"):  # valid requests next to the refused ones
            for o in ("new", "dir"):
                yield {"k": k, "o": o, "valid": 1}
    yield ("requests", C())


def calls(fn, outs, big=True):
    import georinex as gr
    yield "load", lambda: gr.load(fn)
    for o in outs:
        yield "load with out", lambda: gr.load(fn, o)
    yield "gettime", lambda: gr.gettime(fn)
    yield "rinexheader", lambda: gr.rinexheader(fn)
    yield "rinexinfo", lambda: gr.rinexinfo(fn)


def refused(what, call, exc=Exception):
    r, e = attempt(call)
    if e is None:
        raise Violation(f"{what}: not refused, returned {str(r)[:300]}")
    if not isinstance(e, exc):
        raise Violation(f"{what}: refused with {type(e).__name__}: {e}")
    return type(e).__name__


def mutate(t, case):
    ln, nl, rest = t.partition("\n")
    for i, ch in case.get("sub", []):
        ln = ln[:i] + ch + ln[i + 1 :]
    if "del" in case:
        i = case["del"]
        ln = ln[:i] + ln[i + 1 :]
    if "ins" in case:
        i, ch = case["ins"]
        ln = ln[:i] + ch + ln[i:]
    if "swap" in case:
        i = case["swap"]
        ln = ln[:i] + ln[i + 1] + ln[i] + ln[i + 2 :]
    if "cut" in case:
        ln = ln[: case["cut"]]
    return ln, ln + nl + rest


def valid_first(ln, crx):
    if ln[60:80] not in LAB:
        return False
    if crx != (ln[20:40] == "COMPACT RINEX FORMAT"):
        return False
    try:
        v = float(ln[:9])
    except ValueError:
        return False
    return 1 <= v < 4


def tree(ctx):
    return {str(p): p.read_bytes() if p.is_file() else None for p in Path(ctx.base).rglob("*")}


def outs_of(case, ctx):
    import georinex as gr
    d = ctx.path("out")
    d.mkdir(exist_ok=True)
    o = case.get("o")
    if o == "old":
        gr.load(ctx.write("src/other.rnx", text("o3m")), d / "old.nc")
        return d / "old.nc"
    return {None: None, "new": d / "new.nc", "dir": d}[o]


def run(case, ctx):
    import georinex as gr
    names = []
    if "t" in case or "b" in case or "sub" in case or "del" in case or "ins" in case or "swap" in case or "cut" in case:
        return run_content(case, ctx)
    out = outs_of(case, ctx)
    if "miss" in case:
        n = case["miss"]
        fn = ctx.path("d dir/" + n)
        if n.startswith("dir"):
            fn.mkdir(parents=True)
        before = tree(ctx)
        x = str(fn) if case["src"] == "str" else fn
        for name, c in calls(x, [out] if out else []):
            if isinstance(x, str) and name == "gettime" and n.endswith(".nc"):
                continue
            names.append(refused(f"{name} of missing {n}", c, FileNotFoundError if not n.startswith("dir") else Exception))
    elif "obj" in case:
        x = {"None": None, "int": 5, "bytes": b"abc", "list": [], "lines": text("o2m").split("\n"), "dict": {}, "float": 2.11}[case["obj"]]
        before = tree(ctx)
        for name, c in calls(x, [out] if out else []):
            names.append(refused(f"{name} of {case['obj']}", c))
    else:
        fn = ctx.write("f." + EXT[case["k"]], text(case["k"]))
        before = tree(ctx)
        k = {}
        if "tlim" in case:
            x = []
            for i, v in enumerate(case["tlim"]):
                if v in T:
                    t = T[v]
                    v = t if case["form"] == "dt" or case["form"] == "mix" and i == 0 else f"{t.hour}:{t.minute:02d}:{t.second:02d} {t.month}/{t.day}/{t.year}" if case["form"] == "short" else t.isoformat()
                x.append(v)
            if len(x) == 0 and case["seq"] == "never":
                return Obs("empty", trivial=True)
            k["tlim"] = tuple(x) if case["seq"] == "tuple" else x
        if "iv" in case:
            k["interval"] = {"-1": -1, "-0.001": -0.001, "-30.0": -30.0, "td-1": timedelta(seconds=-1), "td-1d": timedelta(days=-1), "str": "abc", "str30": "30", "list": [30], "tuple": (30,), "dict": {}, "dt": T["a"], "none()": (), "np-1": np.float64(-1), "neginf": float("-inf"), "complex": 1j,
                             "bytes": b"30", "td-us": timedelta(microseconds=-1)}[case["iv"]]
            k["fast"] = case["fast"]
            if case["w"]:
                k["tlim"] = (T["a"], T["b"])
        if "out" in case:
            out = str(ctx.path("out")) + "/" + case["out"]
            if case["kind"] == "Path":
                out = Path(out)
            if case["w"]:
                k["tlim"] = (T["a"], T["b"])
        if case.get("valid"):
            must(gr.load, fn, out, tlim=(T["a"], T["b"]), _what="valid request")
            after = tree(ctx)
            if len(after) != len(before) + 1:
                raise Violation("valid request wrote no output")
            return Obs("valid")
        exc = ValueError if "tlim" in case and case["form"] in ("dt", "str") and case["tlim"] in (*FINE, ["b", "a"], ["a"], ["a", "a", "b"], ["b", "b", "a"], []) or "iv" in case and case["iv"] in ("-1", "-30.0", "td-1") else Exception
        names.append(refused(f"load({case['k']}, {out if 'out' in case else case.get('o')}, {k})", lambda: gr.load(fn, out, **k), exc))
    same_tree(before, tree(ctx))
    return Obs(digest((sorted(names),)), execs=len(names), transitions=len(names), states=len(names) + 1)


def same_tree(a, b):
    for p in sorted(set(a) | set(b)):
        if p not in a:
            raise Violation(f"a refused call wrote {Path(p).name}")
        if p not in b or a[p] != b[p]:
            raise Violation(f"a refused call changed {Path(p).name}")


def run_content(case, ctx):
    k = case.get("k")
    first = None
    if "t" in case:
        b = foreign(case["t"]).encode()
        name = case["t"]
    elif "b" in case:
        b = BINS[case["b"]]
        name = case["b"]
    else:
        first, t = mutate(text(k), case)
        b = t.encode()
        name = f"{k} with first line {first!r}"
        if "type" not in case and k != "sp3" and valid_first(first, k.startswith("crx")) or k == "sp3" and first[:2] in ("#a", "#c", "#d"):
            return Obs("valid first line", trivial=True)
    c = case.get("c", "")
    ext = case.get("ext", EXT.get(k, "x") + c)
    if case["src"] == "stream":
        fn = io.StringIO(b.decode("latin-1"))
    else:
        fn = ctx.write("f." + ext, pack(b, c))
        if case["src"] == "str":
            fn = str(fn)
    ctx.path("out").mkdir(exist_ok=True)
    before = tree(ctx)
    # the first line itself is wrong: ValueError; else whatever exception
    line = "type" not in case and case.get("t") not in KNOWS and "b" not in case and not ext.endswith("nc") and (c or not ext.endswith((".gz", ".bz2", ".zip", ".Z")))
    names = []
    for nm, call in calls(fn, [ctx.path("out/x.nc")]):
        if nm in ("rinexinfo", "rinexheader") and (case.get("t") in KNOWS or "type" in case or first is not None and readable(first)):
            if nm == "rinexinfo" or case.get("t") == "geo":
                continue
        line_ = line and not (first is not None and readable(first))
        names.append(refused(f"{nm} of {name} ({case['src']}, {ext})", call, ValueError if line_ else Exception))
    same_tree(before, tree(ctx))
    return Obs(digest((sorted(names),)), execs=len(names), transitions=len(names), states=len(names) + 1)


def readable(first):
    """a RINEX first line of a version that is not supported"""
    if first[60:80] not in LAB or first[60] == "C" and first[20:40] != "COMPACT RINEX FORMAT":
        return False
    try:
        v = float(first[:9])
    except ValueError:
        return False
    return v == v and abs(v) != float("inf")
