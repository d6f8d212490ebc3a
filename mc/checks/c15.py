"""C15: a file that ends early never yields altered data."""
import bz2
import gzip
import io
import zipfile
from functools import lru_cache
from itertools import product
from ..core import Obs, Violation, digest
from ..docs import LINES, NOINT, KM, nav_cells, nav_rec_fields, obs_cells, obs_epochs, render, sp3_cells, types_of
from ..observe import attempt, cells, close, tstr
from ..small import load
from .c05 import cells_sp3

ID = "C15"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash-point enumeration: the file cut at every byte (plain and compressed), the load of every prefix compared with the reference model of the whole"
RULE = "one case = one document, container, options and cut offset; the load of the prefix raises, or gives every complete record exactly and nothing foreign; " \
       "trivial = the load raised"
ASSUMPTIONS = ["the one number or field that the cut goes through may be read as a shorter number, as no reader can tell",
               "fields of an incomplete ephemeris behind the cut may read as absent or zero",
               "epochs and satellites without any value are not data"]
CHUNK = 100

E2 = [{"e": 0, "s": ["G01", "G12"], "p": "b"}, {"e": 30, "s": ["G12"], "p": "v.b"}, {"e": 60, "s": ["G02", "G01"], "p": "bn."}]
EM = [{"e": 0, "s": ["G01", "R02"], "p": "b"}, {"e": 30.5, "s": ["R02", "G12"], "p": ".b"}]
H = ["types", "tfo"]
D = {
    "o2": {"k": "o2", "sys": "G", "types": ["C1", "L1", "S1"], "hdr": H, "ev": E2},
    "o2c": {"k": "o2", "sys": "G", "types": "C1 L1 P2 L2 S1 S2 D1".split(), "trim": True, "hdr": H + ["int", "pos"],
            "ev": [{"e": 0, "s": [f"G{i:02d}" for i in range(1, 14)], "p": "v...l.v"}, {"e": 30, "s": ["G03"], "p": "b"}]},
    "o2m": {"k": "o2", "sys": "M", "types": ["C1", "L1"], "hdr": H, "ev": EM},
    "o2ev": {"k": "o2", "sys": "G", "types": ["C1", "L1"], "hdr": H, "eol": "rn",
             "ev": [E2[0], {"x": 4, "n": ["18  7 29 comment".ljust(60) + "COMMENT"], "t": None}, dict(E2[1], f=1)]},
    "o3": {"k": "o3", "sys": "M", "types": {"G": ["C1C", "L1C", "S1C"], "R": ["L1C"]}, "hdr": H, "ev": EM + [{"e": 60, "s": ["G01", "R07"], "p": "nb.b"}]},
    "o3g": {"k": "o3", "sys": "G", "types": {"G": ["C1C", "L1C"]}, "hdr": H + ["int", "pos", "rcv"], "trim": True, "ev": E2},
    "o3ev": {"k": "o3", "sys": "G", "types": {"G": ["C1C", "L1C"]}, "hdr": H, "eol": "rn",
             "ev": [E2[0], {"x": 4, "n": ["> 2018 07 29 comment".ljust(60) + "COMMENT"], "t": None}, dict(E2[1], f=1, c=0.000123)]},
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G12", "t": 0}, {"sv": "G01", "t": 7215}]},
    "n2rs": {"k": "n2", "ft": "N", "ev": [{"sv": "G12", "t": 0, "rs": 1, "nf": 28}, {"sv": "G01", "t": 7215, "pad": 1}]},
    "n2g": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 900}, {"sv": "R12", "t": 2715}, {"sv": "R01", "t": 2715}]},
    "n2e": {"k": "n2", "ft": "E", "ev": [{"sv": "E01", "t": 900}, {"sv": "E12", "t": 600, "rs": 1}]},
    "n3g": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R02", "t": 915}, {"sv": "G01", "t": 7200}, {"sv": "G01", "t": 7200, "nf": 28}]},
    "n3e": {"k": "n3", "ev": [{"sv": "E01", "t": 0}, {"sv": "E12", "t": 600, "rs": 1}]},
    "n3e27": {"k": "n3", "ev": [{"sv": "E01", "t": 0, "nf": 27}, {"sv": "E12", "t": 600, "nf": 31}]},
    "n3c": {"k": "n3", "ev": [{"sv": "C01", "t": 0}, {"sv": "C12", "t": 600, "rs": 1}, {"sv": "C12", "t": 1200, "nf": 31}]},
    "n3c28": {"k": "n3", "ev": [{"sv": "C01", "t": 0, "nf": 27}, {"sv": "C12", "t": 600, "nf": 28}]},
    "n3s": {"k": "n3", "ev": [{"sv": "S20", "t": 0}, {"sv": "J01", "t": 600}, {"sv": "R21", "t": 645}]},
    "n3i": {"k": "n3", "ev": [{"sv": "I02", "t": 600}, {"sv": "G12", "t": 600, "nf": 31}, {"sv": "J02", "t": 0, "nf": 30}]},
    "sp3c": {"k": "sp3", "v": "c", "sv": ["G01", "R02", "E12"], "ev": [{"e": 0}, {"e": 900, "s": ["R02", "E12"]}, {"e": 1800.5}]},
    "sp3d": {"k": "sp3", "v": "d", "vel": True, "ncom": 0, "sv": [f"G{i:02d}" for i in range(1, 19)], "ev": [{"e": 0, "s": ["G01", "G12"]}, {"e": 900, "s": ["G18"], "ep": 1}]},
    "sp3a": {"k": "sp3", "v": "a", "sp_num": True, "blankG": True, "eof": False, "sv": ["G01", "G12", "G02"], "ev": [{"e": 0, "s": ["G12", "G01"]}, {"e": 900}]},
}
for d in D.values():
    if d["k"][0] == "n":
        d["hdr"] = []
EXT = {"o2": ".18o", "o3": ".rnx", "n2": ".18n", "n3": ".rnx", "sp3": ".sp3"}


def pack(b, cont):
    if cont == "plain":
        return b
    if cont == "gz":
        return gzip.compress(b)
    if cont == "gz0":  # stored: every prefix of the content can come out
        return gzip.compress(b, compresslevel=0)
    if cont == "bz2":
        return bz2.compress(b)
    if cont == "Z":
        from ncompress import compress
        return compress(b)
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("inner.rnx", b)
    return f.getvalue()


@lru_cache(maxsize=8)
def crx(txt):
    from hatanaka import rnx2crx
    return rnx2crx(txt.encode()).decode()


@lru_cache(maxsize=64)
def model(name, ind):
    """-> text, {(var, key): (value, start, end, record)}, record ends, kind"""
    d = D[name]
    txt = render(d)
    pos = []
    lines, marks = LINES[d["k"]](d, pos)
    eol = 2 if d.get("eol") == "rn" else 1
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln) + eol)
    out = {}
    if d["k"][0] == "o":
        exp = obs_cells(d, ind=ind)[0]
        t = [x[0] for x in obs_epochs(d)]
        for e, s, k, ln, col in pos:
            ty = types_of(d, s[0])[k]
            for var, a, b in ((ty, 0, 14), (ty + "lli", 14, 15), (ty + "ssi", 15, 16)):
                if (t[e], s) in exp.get(var, {}):
                    out[var, (t[e], s)] = (exp[var][t[e], s], start[ln] + col + a, start[ln] + col + b, e)
    elif d["k"][0] == "n":
        exp, recs = nav_cells(d)
        for r, s, k, ln, col in pos:
            p = nav_rec_fields(d, d["ev"][r])[k]
            if p != "-":
                out[p, recs[r]] = (exp[p][recs[r]], start[ln] + col, start[ln] + col + 19, r)
    else:
        exp = sp3_cells(d)
        from ..docs import at, ns
        t = [ns(at(d, x["e"])) for x in d["ev"]]
        for i, (e, s, k, ln, col) in enumerate(pos):
            v = ("x y z clock vx vy vz dclock").split()[k]
            out[v, (t[e], s)] = (exp[v][t[e], s], start[ln] + col, start[ln] + col + 14, ln)
    assert len(out) == sum(len(v) for v in exp.values()), (name, len(out), sum(len(v) for v in exp.values()))
    # where a record ends: last line before that offset is complete (but for blanks and the line end)
    if d["k"] == "sp3":
        ends = {ln: (start[ln], start[ln] + len(lines[ln].rstrip())) for e, s, k, ln, col in pos}
    else:
        ends, n = {}, 0
        prev = marks[0][1]
        for nm, i in marks[1:]:
            if nm == "rec":
                ends[n] = (start[prev], start[i - 1] + len(lines[i - 1].rstrip()))
                n += 1
            prev = i
    return txt, out, ends


def spaces(tier):
    big = tier == "thorough"

    def opts(k):
        yield {}
        if k[0] == "o":
            yield {"ind": True}
        if k == "o2":
            yield {"fast": False}

    def A():
        for name, d in D.items():
            n = len(render(d).encode())
            for o in opts(d["k"]):
                if name == "o2m" and o and not big:
                    continue
                for c in range(n):
                    yield {"d": name, "cont": "plain", "cut": c, **o}
    yield ("plain files", A())

    def B():
        conts = ("gz", "gz0", "bz2", "Z", "zip")
        names = ("o2", "o3", "n2", "n3g", "n3e", "n3c", "sp3c") if not big else tuple(D)
        for cont in conts:
            for name in names:
                n = len(pack(render(D[name]).encode(), cont))
                for c in range(n):
                    if cont == "gz0" and not big and name not in ("o2", "n3e", "sp3c"):
                        continue
                    yield {"d": name, "cont": cont, "cut": c}
    yield ("compressed files", B())

    def C():
        for name in ("o2", "o2c", "o3", "o3g") if not big else [n for n, d in D.items() if d["k"][0] == "o" and d.get("eol") != "rn"]:
            t = crx(render(D[name])).encode()
            for cont in ("plain", "gz", "Z") if not big else ("plain", "gz", "gz0", "bz2", "Z", "zip"):
                for c in range(len(pack(t, cont))):
                    yield {"d": name, "cont": cont, "cut": c, "crx": True}
    yield ("Hatanaka files", C())


def run(case, ctx):
    d = D[case["d"]]
    txt, W, ends = model(case["d"], bool(case.get("ind")))
    b = (crx(txt) if case.get("crx") else txt).encode()
    plain = case["cont"] == "plain" and not case.get("crx")
    cut = case["cut"]
    sfx = {"plain": "", "gz": ".gz", "gz0": ".gz", "bz2": ".bz2", "Z": ".Z", "zip": ".zip"}[case["cont"]]
    fn = ctx.write("doc" + EXT[d["k"]] + sfx, pack(b, case["cont"])[:cut])
    o = {}
    if case.get("ind"):
        o["useindicators"] = True
    if "fast" in case:
        o["fast"] = case["fast"]
    ds, err = attempt(load, fn, **o)
    what = f"{case['d']} cut at byte {cut}"
    if err is not None:
        if plain and d["k"] != "sp3" and any(cut >= e and (cut == len(b) or all(not (s < cut < f) for s, f in ends.values()) and b[:cut].rstrip(b"\r\n \x00") == b[:e].rstrip()) for s, e in ends.values()):
            raise Violation(f"{what}, just behind a record: load raised {type(err).__name__}: {err}")
        if plain and d["k"] == "sp3" and any(b[:cut].rstrip() == b[:e] for s, e in ends.values()):
            raise Violation(f"{what}, just behind a record: load raised {type(err).__name__}: {err}")
        return Obs("raised", transitions=1, states=2, trivial=True)
    got = cells_sp3(ds)[0] if d["k"] == "sp3" else cells(ds)
    got = {(v, k): x for v, c in got.items() for k, x in c.items()}
    recs = {k[1] for k in W} if d["k"] == "n3" else ()
    for k in sorted(got):
        if k not in W and not (got[k] == 0 and k[1] in recs):  # omitted fields of a navigation record are zero
            raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is {got[k]!r}, the whole file has no such value")
    if not plain:  # where the content ends is not known: somewhere in the record of the last cell that is right
        right = [W[k] for k in got if k in W and close(got[k], W[k][0])]
        wrong = {W[k][3] for k in got if k in W and not close(got[k], W[k][0])}
        last = max([x[3] for x in right], default=None)
        if len(wrong) > 1 or wrong and last is not None and max(wrong) < last:
            k = next(k for k in sorted(got) if k in W and not close(got[k], W[k][0]))
            raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is {got[k]!r}, should be {W[k][0]!r}")
        # the incomplete record is the one with the wrong value, or the last one
        rec = max(wrong) if wrong else last
        nwrong = 0
        for k, (v, s, e, r) in sorted(W.items()):
            if k in got and not close(got[k], v):
                nwrong += not (d["k"][0] == "n" and got[k] == 0)
                if nwrong > 1:
                    raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is {got[k]!r}, should be {v!r}")
            if rec is not None and r < rec and k not in got:
                raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is missing, though later records are loaded")
        return Obs(digest((case["d"], sorted(got))), transitions=2, states=2, trivial=not got)
    for k, (v, s, e, r) in sorted(W.items()):
        complete = cut >= ends[r][1] if d["k"][0] != "o" else cut >= e
        if k not in got:
            if complete:
                raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is missing, should be {v!r}")
            continue
        if close(got[k], v):
            continue
        if not complete and s < cut < e:  # the number that is cut
            continue
        if not complete and cut <= s and d["k"][0] == "n" and got[k] == 0:
            continue
        raise Violation(f"{what}: {k[0]} of {k[1][1]} at {tstr(k[1][0])} is {got[k]!r}, should be {v!r}")
    return Obs(digest((case["d"], sorted(got))), transitions=2, states=2, trivial=not got)
