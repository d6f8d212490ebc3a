"""C10: the container and source of a file do not change its data."""
import bz2
import gzip
import io
import zipfile
from functools import lru_cache
from itertools import product
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, F2, nav_cells, ns, at, obs_cells, obs_sats, render
from ..observe import attempt, check_obs, must, times_ns, tstr
from ..small import OBS, dtypes
from .c03 import check_nav
from .c04 import ALLNAMES
from .c05 import check_sp3

ID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of content x container x source x name x line end combinations, each compared with the reference model"
RULE = "one case = one content in one container under one name from one source; load (and gettime) compared with the reference; " \
       "trivial = no data"
ASSUMPTIONS = ["Hatanaka, gzip, bzip2, LZW and zip encoders of the sandbox are right", "a zip archive has one member",
               "the wrong-suffix cases are those whose leading bytes identify the container"]

DOCS = {
    "o2m": OBS["o2m"], "o2g": OBS["o2g"], "o3m": OBS["o3m"], "o3g": OBS["o3g"],
    "o2x": dict(OBS["o2g"], types="C1 L1 P1 L2 P2 S1 S2 D1 D2 C5 L5".split(), trim=True,
                ev=[{"e": 30 * i, "s": [f"G{j:02d}" for j in range(1, n + 1)], "p": p} for i, (n, p) in enumerate(((13, "b"), (2, "v."), (12, "....v"), (1, "b")))]),
    "o2w": dict(OBS["o2g"], types="C1 L1 P1".split(), nt=4),  # wrong number of types, same number of lines
    "o2w7": dict(OBS["o2g"], types="C1 L1 P1 L2 P2 S1 S2".split(), nt=10, trim=True),
    "o3x": dict(OBS["o3m"], trim=True, hdr=DEFHDR[:3] + ["com"] + DEFHDR[3:] + ["com3"]),
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200, "rs": 1}]},
    "n2r": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 900}, {"sv": "R22", "t": 0}]},
    "n3": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R02", "t": 900}, {"sv": "E05", "t": 600}, {"sv": "G01", "t": 0}]},
    "sp3c": {"k": "sp3", "v": "c", "sv": ["G01", "R02", "E07"], "ev": [{"e": 0}, {"e": 900, "s": ["R02", "E07"]}]},
    "sp3d": {"k": "sp3", "v": "d", "vel": True, "sv": [f"G{i:02d}" for i in range(1, 19)], "ev": [{"e": 0}, {"e": 900}]},
}
CONT = ("plain", "gz", "gz0", "gzm", "bz2", "bz2m", "Z", "zip", "zip0")
CONT2 = ("gz1", "gzh", "bz1", "bz5", "zipf", "zipt", "zipb", "zipl", "zipc")  # levels, header fields, member names, methods, comment
CONT3 = CONT + CONT2
SUFFIX = {"plain": "", "Z": ".Z", **{c: {"g": ".gz", "b": ".bz2", "z": ".zip"}[c[0]] for c in CONT3 if c not in ("plain", "Z")}}
NATIVE = {"o2": ".18o", "o3": ".rnx", "n2": ".18n", "n3": ".rnx", "sp3": ".sp3"}
NONASCII = {"latin1": b"station caf\xe9 \xfc\xdf", "utf8": "station \u00e9\u4e2d\u6587".encode(), "ctrl": b"\x80\xff\xfe station"}


@lru_cache(maxsize=64)
def crx(txt):
    from hatanaka import rnx2crx
    return rnx2crx(txt.encode()).decode()


def content(case) -> bytes:
    d = DOCS[case["doc"]]
    txt = render(d)
    if case.get("crx"):
        txt = crx(txt)
    if case.get("noeol"):
        txt = txt.rstrip("\n")
    b = txt.encode()
    if case.get("na"):
        lines = b.split(b"\n")
        i = next(i for i, x in enumerate(lines) if b"END OF HEADER" in x)
        lines.insert(i, NONASCII[case["na"]].ljust(60)[:60] + b"COMMENT".ljust(20))
        b = b"\n".join(lines)
    if case.get("lead"):
        b = case["lead"].encode() + b
    if case.get("eol") == "rn":
        b = b.replace(b"\n", b"\r\n")
    return b


def pack(b: bytes, cont: str) -> bytes:
    if cont == "plain":
        return b
    if cont == "gz":
        return gzip.compress(b)
    if cont == "gz0":
        return gzip.compress(b, compresslevel=0)
    if cont == "gzm":  # several members
        return gzip.compress(b[: len(b) // 3]) + gzip.compress(b[len(b) // 3 :])
    if cont == "gz1":
        return gzip.compress(b, compresslevel=1)
    if cont == "gzh":  # name, time stamp
        f = io.BytesIO()
        with gzip.GzipFile("x.crx", "wb", 5, f, 1.5e9) as g:
            g.write(b)
        return f.getvalue()
    if cont in ("bz1", "bz5"):
        return bz2.compress(b, int(cont[2]))
    if cont == "bz2":
        return bz2.compress(b)
    if cont == "bz2m":
        return bz2.compress(b[: len(b) // 3]) + bz2.compress(b[len(b) // 3 :])
    if cont == "Z":
        from ncompress import compress
        return compress(b)
    f = io.BytesIO()
    method = {"zip0": zipfile.ZIP_STORED, "zipb": zipfile.ZIP_BZIP2, "zipl": zipfile.ZIP_LZMA}.get(cont, zipfile.ZIP_DEFLATED)
    with zipfile.ZipFile(f, "w", method) as z:
        z.writestr({"zipf": "2020/064/a b.20O", "zipt": "readme.TXT"}.get(cont, "inner.rnx"), b)
        if cont == "zipc":
            z.comment = b"a comment"
    return f.getvalue()


def spaces(tier):
    big = tier == "thorough"

    def forms(doc):
        yield {"crx": False}
        if DOCS[doc]["k"][0] == "o" and "nt" not in DOCS[doc]:  # rnx2crx refuses it
            yield {"crx": True}

    def A():
        for doc in DOCS:
            for f, cont, src, eol in product(forms(doc), CONT, ("path", "str"), ("n", "rn")):
                if doc == "o2m" and not big and (src == "str" or eol == "rn" and cont in ("gz0", "bz2m", "zip0")):
                    continue
                yield {"doc": doc, "cont": cont, "src": src, "eol": eol, **f}
            if DOCS[doc]["k"] != "sp3":
                for f, eol, noeol in product(forms(doc), ("n", "rn"), (0, 1)):
                    if f["crx"] and noeol:
                        continue  # an incomplete Hatanaka file
                    yield {"doc": doc, "src": "stream", "cont": "plain", "eol": eol, "noeol": noeol, **f}
    yield ("containers and sources", A())

    def B():
        for doc in DOCS:
            if doc == "o2m" and not big:
                continue
            for f, cont in product(forms(doc), CONT):
                nat = NATIVE[DOCS[doc]["k"]]
                names = {"x" + nat + SUFFIX[cont].upper(), "X" + nat.upper() + SUFFIX[cont], "x" + SUFFIX[cont].lower(), "x", "x.dat", "x.txt", "x" + nat, "x.y.z.18d",
                         "x.crx" + SUFFIX[cont], "x with blanks" + nat + SUFFIX[cont]}
                if cont != "plain":
                    names |= {"x.gz", "x.bz2", "x.zip", "x.Z", "x.z", "x.GZ"}
                for name in sorted(names):
                    yield {"doc": doc, "cont": cont, "src": "path", "eol": "n", "name": name, **f}
    yield ("names", B())

    def D():
        for doc in DOCS:
            if doc == "o2m" and not big:
                continue
            nat = NATIVE[DOCS[doc]["k"]]
            for f, cont in product(forms(doc), CONT2):
                for name in ("x" + nat + SUFFIX[cont], "x" + nat, "x", "x.gz", "x.bz2", "x.zip", "x.Z"):
                    yield {"doc": doc, "cont": cont, "src": "path", "eol": "n", "name": name, **f}
    yield ("levels, member names, methods", D())

    def C():
        for doc in DOCS:
            if DOCS[doc]["k"] == "sp3" or doc == "o2m" and not big:
                continue
            for f, cont, na, eol in product(forms(doc), CONT, NONASCII, ("n", "rn")):
                yield {"doc": doc, "cont": cont, "src": "path", "eol": eol, "na": na, **f}
        for doc in DOCS:
            for f, cont, eol in product(forms(doc), CONT, ("n", "rn")):
                if doc != "o2m" and not f["crx"]:
                    yield {"doc": doc, "cont": cont, "src": "path", "eol": eol, "noeol": 1, **f}
    yield ("non-ASCII bytes, no last line end", C())

    def E():
        for doc in DOCS:
            if doc == "o2m" and not big:
                continue
            for cont, lead, eol in product(("plain", "gz", "bz2", "zip", "Z", "stream"), ("\n", "\n\n", "  \n", " \n\n\t\n", "\n" * 8), ("n", "rn")):
                if cont == "stream" and DOCS[doc]["k"] == "sp3":
                    continue
                for f in forms(doc):
                    if not f["crx"]:
                        yield {"doc": doc, "cont": "plain" if cont == "stream" else cont, "src": "stream" if cont == "stream" else "path", "eol": eol, "lead": lead, **f}
    yield ("blank lines at the beginning", E())


def run(case, ctx):
    import georinex as gr
    d = DOCS[case["doc"]]
    b = pack(content(case), case["cont"])
    if case["src"] == "stream":
        arg = io.StringIO(b.decode("ascii"))
    else:
        name = case.get("name", ("x" + NATIVE[d["k"]] if not case["crx"] else "x.crx") + SUFFIX[case["cont"]])
        fn = ctx.write(name, b)
        arg = str(fn) if case["src"] == "str" else fn
    ds = must(gr.load, arg, _what="load")
    if d["k"][0] == "o":
        exp, times = obs_cells(d)
        check_obs(ds, exp, dtypes(d), set(times), obs_sats(d))
    elif d["k"] == "sp3":
        exp = check_sp3(ds, d)
        times = None
    else:
        exp, rec = nav_cells(d)
        check_nav(ds, exp, rec, ALLNAMES | {f for v in F2.values() for f in v})
        times = sorted({ns(at(d, e["t"])) for e in d["ev"]})
    if times is not None:
        t = times_ns(must(gr.gettime, arg, _what="gettime"))
        if t != times:
            raise Violation(f"gettime returns {[tstr(x) for x in t]}, should be {[tstr(x) for x in times]}")
    return Obs(digest((case["doc"], sorted((k, sorted(v.items())) for k, v in exp.items()))), transitions=len(d["ev"]), states=len(d["ev"]) + 1, execs=2, trivial=not exp)
