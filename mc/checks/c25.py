"""C25: receiver locations are listed per file."""
import gzip
import io
import math
import os
from fnmatch import fnmatchcase
from functools import lru_cache
from itertools import combinations, combinations_with_replacement, permutations, product
from pathlib import Path, PurePosixPath
from ..core import Obs, Violation, digest
from ..docs import render
from ..observe import must
from ..small import OBS
from .c21 import ecef
from .c23 import DOCS

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of ordered lists of files and streams (get_locations) and of directory contents and pattern lists (globber), compared with a reference model"
RULE = "one case = one list of inputs, or one directory and list of patterns: rows, respectively files, are exactly those of the model; trivial = none"
ASSUMPTIONS = ["positions are 1 to 20 km apart from each other, near the surface of the earth"]
CHUNK = 80

ZOO = ["o2", "o3", "o2noint", "o3noint", "nopos", "o3nopos", "badpos", "shortpos", "blankpos", "badint", "gz", "crx", "n2", "n3", "sp3", "empty", "text", "cutgz", "missing", "dir", "nc2", "nc3", "ncnav", "ncboth", "ncnopos", "nc1ep", "junknc", "ncsp3", "hdronly", "cuthdr", "missingnc", "bin",
       "rep2", "rep3", "met", "v4"]


def latlon(i, k):
    return [-60.0, -10.2, 33.3, 47.125, 71.7][(i * 2 + len(k)) % 5] + 0.05 * i, [-170.5, -33.3, 0.7, 99.9, 174.0][(i + len(k)) % 5] + 0.07 * i, 100.0 * i


@lru_cache(maxsize=None)
def build(k, i):
    """-> bytes (or None), expected (lat, lon, interval) or None"""
    lat, lon, alt = latlon(i, k)
    pos = [round(x, 4) for x in ecef(lat, lon, alt)]
    iv = [30, 1, 0.5, 15][i % 4]
    base = dict(OBS["o3m" if "3" in k or k in ("crx", "cuthdr", "v4") else "o2m"], pos=pos, interval=iv)
    H = ["marker", "pos", "types", "int", "tfo"]
    hdr = {"o2noint": ["types", "pos", "tfo"], "o3noint": ["types", "pos", "tfo"], "nopos": ["types", "int", "tfo"], "o3nopos": ["types", "int", "tfo"], "badpos": ["pos_bad", "types", "int", "tfo"], "badint": ["int_bad", "types", "pos", "tfo"], "rep2": H + ["pos", "com"], "rep3": ["com", "pos"] + H}.get(k, H)
    t = render(dict(base, hdr=hdr))
    exp = (lat, lon, None if k in ("o2noint", "o3noint", "badint") else float(iv))
    if k in ("nopos", "o3nopos", "badpos", "n2", "n3", "sp3", "empty", "text", "cutgz", "missing", "dir", "ncnav", "ncnopos", "junknc", "ncsp3", "shortpos", "blankpos", "missingnc", "bin", "met", "v4"):
        exp = None
    if k in ("shortpos", "blankpos"):
        p = "".join(f"{x:14.4f}" for x in pos)
        t = t.replace(p, p[:28] + " " * 14 if k == "shortpos" else " " * 42)
    if k == "gz":
        return gzip.compress(t.encode()), exp
    if k == "cutgz":
        return gzip.compress(t.encode())[:30], exp
    if k == "crx":
        from hatanaka import rnx2crx
        return rnx2crx(t).encode(), exp
    if k in ("n2", "n3", "sp3"):
        return render(DOCS[k]).encode(), exp
    if k == "met":
        return t.replace("OBSERVATION DATA", "METEO DATA      ").encode(), exp
    if k == "v4":
        return (t[:5] + "4" + t[6:]).encode(), exp
    if k == "cuthdr":
        return t[: t.index("END OF HEADER") - 60].encode(), exp
    if k == "hdronly":
        return t[: t.index("END OF HEADER") + 21].encode(), exp
    return {"empty": b"", "text": b"Lorem ipsum\n" * 9, "junknc": b"not NetCDF", "missing": None, "missingnc": None, "dir": None, "bin": bytes(range(256))}.get(k, t.encode()), exp


SUF = {"o2": ".18o", "o3": ".rnx", "gz": ".18o.gz", "crx": ".crx", "n2": ".18n", "sp3": ".sp3", "text": ".txt", "cutgz": ".rnx.gz", "junknc": ".nc", "missingnc": ".nc"}
NC = {}


def nc_bytes(k, i, ctx):
    """the NetCDF conversion, made by the real code; its interval is that of the dataset"""
    if (k, i) not in NC:
        import georinex as gr
        out = ctx.path(f"mk{k}{i}.nc")
        lat, lon, alt = latlon(i, k)
        pos = [round(x, 4) for x in ecef(lat, lon, alt)]
        iv = [30, 1, 0.5, 15][i % 4]
        e2 = OBS["o2m"]["ev"]
        exp = (lat, lon, float(iv))
        if k == "nc2":
            gr.load(ctx.write("mk.18o", render(dict(OBS["o2m"], pos=pos, interval=iv))), out)
        elif k in ("nc3", "ncboth"):
            if k == "ncboth":
                gr.load(ctx.write("mk.18n", render(DOCS["n2"])), out)
            gr.load(ctx.write("mk.rnx", render(dict(OBS["o3m"], pos=pos, interval=iv))), out)
        elif k == "ncnopos":
            gr.load(ctx.write("mk.rnx", render(dict(OBS["o3m"], hdr=["types", "int", "tfo"]))), out)
            exp = None
        elif k == "nc1ep":  # interval from the data: 30 s in RINEX 3, none with one epoch
            gr.load(ctx.write("mk.rnx", render(dict(OBS["o3m"], pos=pos, hdr=["types", "pos", "tfo"], ev=OBS["o3m"]["ev"][: 1 if i % 2 else 3]))), out)
            exp = (lat, lon, None if i % 2 else 30.0)
        elif k == "ncnav":
            gr.load(ctx.write("mk.18n", render(DOCS["n2"])), out)
            exp = None
        elif k == "ncsp3":
            gr.load(ctx.write("mk.sp3", render(DOCS["sp3"])), out)
            exp = None
        NC[k, i] = out.read_bytes(), exp
    return NC[k, i]


GF = ["a.18o", "b.18O", "c.rnx", "c.rnx.gz", ".hid.18o", "sub/d.18o", "x dir/", "a[1].18o"]
GP = ["*", "*o", "*O", "*.rnx*", "a*", "*/*", "**/*.18o", "zzz", "[ac]*", "?.18o", "c.rnx", "sub", "*.18o", "sub/*o"]


def spaces(tier):
    big = tier == "thorough"

    def A():
        yield {"l": []}
        for k in ZOO + ["stream", "stream3", "snopos", "sempty", "stext"]:
            for single in (0, 1):
                yield {"l": [k], "single": single}
        z = ZOO + ["stream", "snopos"]
        for a, b in product(z, z):
            yield {"l": [a, b]}
            if big or len(a) + len(b) < 8:
                yield {"l": [a, b], "samename": 1}
        few = ["o2", "o3noint", "nopos", "text", "nc3", "stream", "cutgz", "badint"]
        for s in product(few, repeat=3):
            yield {"l": list(s)}
        for s in permutations(["o2", "o3noint", "missing", "nc2", "crx", "badpos"] + (["gz", "ncnopos"] if big else []), 5 if not big else 6):
            yield {"l": list(s)}
        yield {"l": ZOO}
        yield {"l": ZOO[::-1]}
        yield {"l": ZOO * 2}
        for form in ("tuple", "rel"):
            for s in product(few, repeat=2):
                yield {"l": list(s), "form": form}
    yield ("locations", A())

    def B():
        for n in range(len(GF) + 1):
            for fs in combinations(GF, n):
                for m in (0, 1, 2):
                    for ps in permutations(GP, m):
                        if m == 2 and n not in (3, len(GF)) and not big:
                            continue
                        yield {"g": list(fs), "p": list(ps)}
                        if m == 1:
                            yield {"g": list(fs), "p": list(ps), "str": 1}
        for ps in permutations(GP, 3):
            yield {"g": GF, "p": list(ps)}
        for ps in ([], ["*"], ["zzz"], "*"):
            for w in ("file", "missing", "home"):
                yield {"g": GF, "p": ps, "where": w}
    yield ("globber", B())


def run(case, ctx):
    return run_glob(case, ctx) if "g" in case else run_loc(case, ctx)


def run_glob(case, ctx):
    import georinex as gr
    d = ctx.path("home/data")
    for f in case["g"]:
        p = d / f
        if f.endswith("/"):
            p.mkdir(parents=True)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text("x")
    d.mkdir(parents=True, exist_ok=True)
    pats = [case["p"]] if isinstance(case["p"], str) else case["p"]

    def match(f, pat):
        a, b = f.split("/"), pat.split("/")
        if b[0] == "**":
            return fnmatchcase(a[-1], b[1])
        return len(a) == len(b) and all(fnmatchcase(x, y) for x, y in zip(a, b))
    files = [f for f in case["g"] if not f.endswith("/")]
    want = sorted(str(d / f) for f in files if any(match(f, p) for p in pats))
    w = case.get("where")
    path = d
    if w == "file":
        path = d / "a.18o"
        want = [str(path)]
    elif w == "missing":
        path = d / "not here"
        want = []
    elif w == "home":
        os.environ["HOME"], old = str(ctx.path("home")), os.environ.get("HOME", "/")
        path = Path("~/data")
    try:
        arg = pats[0] if case.get("str") and pats else list(pats)
        got = must(gr.globber, path, arg, _what=f"globber({path.name}, {arg})")
    finally:
        if w == "home":
            os.environ["HOME"] = old
    if sorted(map(str, got)) != want:
        g, x = set(map(str, got)), set(want)
        raise Violation(f"globber({path.name}, {arg}): " + (f"twice {sorted(f for f in g if [str(y) for y in got].count(f) > 1)}" if g == x else f"too many {sorted(g - x)}, missing {sorted(x - g)}"))
    return Obs(digest([Path(x).name for x in want]), transitions=len(pats), states=len(files) + 1, trivial=not want)


def run_loc(case, ctx):
    import georinex.geo as gg
    items, want = [], []
    for i, k in enumerate(case["l"]):
        if k in ("stream", "stream3", "snopos", "sempty", "stext"):
            b, e = build({"stream": "o2", "stream3": "o3noint", "snopos": "nopos", "sempty": "empty", "stext": "text"}[k], i)
            items.append(io.StringIO(b.decode()))
            name = "0"
        else:
            if k.startswith("nc"):
                b, e = nc_bytes(k, i, ctx)
                suf = ".nc"
            else:
                b, e = build(k, i)
                suf = SUF.get(k, ".rnx" if "3" in k else ".18o")
            name = ("same" if case.get("samename") else f"f{i} {k}") + suf
            fn = ctx.path(f"d{i}/{name}")
            if k == "dir":
                fn.mkdir(parents=True)
            elif b is not None:
                ctx.write(f"d{i}/{name}", b)
            if case.get("form") == "rel":
                os.chdir(ctx.base)
                fn = fn.relative_to(ctx.base)
            items.append(fn)
        if e is not None:
            want.append((name, *e))
    arg = items[0] if case.get("single") else tuple(items) if case.get("form") == "tuple" else items
    n = len(items)
    locs = must(gg.get_locations, arg, _what=f"get_locations({case['l']})")
    what = f"get_locations({case['l']})"
    if len(items) != n:
        raise Violation(f"{what}: changed its argument")
    got = [(str(ix), float(r["lat"]), float(r["lon"]), r["interval"]) for ix, r in locs.iterrows()]
    left = list(want)
    for name, lat, lon, iv in got:
        iv = None if iv is None or iv != iv else float(iv)
        for w in left:
            if w[0] == name and abs(w[1] - lat) < 1e-6 and abs(w[2] - lon) < 1e-6 and (w[3] is None) == (iv is None) and (iv is None or abs(iv - w[3]) < 1e-9):
                left.remove(w)
                break
        else:
            raise Violation(f"{what}: row {name} {lat} {lon} {iv} should not be there; expected {want}")
    if left:
        raise Violation(f"{what}: no row for {left}")
    return Obs(digest(sorted(map(str, want))), transitions=len(items), states=len(items) + 1, trivial=not want)
