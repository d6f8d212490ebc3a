"""C17: batch conversion isolates unreadable files."""
import bz2
import gzip
import io
import os
import zipfile
from functools import lru_cache
from itertools import combinations, permutations, product
from pathlib import Path
import xarray
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, first_line, hl, render
from ..observe import attempt, must
from ..small import OBS, opts_of
from .c11 import same

ID = "C17"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault enumeration: every ordered selection of readable and unreadable files, visited in that order, converted twice; outputs compared with single loads"
RULE = "one case = one ordered selection of files in a directory, options and pattern: batch_convert once and again; each readable file's output equals load of the file, " \
       "nothing else is written, nothing changes the second time; trivial = no readable file"
ASSUMPTIONS = ["the file system order is replaced by the order of the case where the code asks pathlib for the files"]
CHUNK = 20

O2_ = dict(OBS["o2g"], ev=OBS["o2g"]["ev"][:2])
O3_ = dict(OBS["o3m"], ev=OBS["o3m"]["ev"][:2])
O3G = dict(OBS["o3g"], ev=OBS["o3g"]["ev"][:2])
N2_ = {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200}]}
N3_ = {"k": "n3", "ev": [{"sv": "R01", "t": 0}, {"sv": "G22", "t": 900}, {"sv": "R01", "t": 0}]}
SP3_ = {"k": "sp3", "v": "c", "sv": ["G01", "R02"], "ev": [{"e": 0}, {"e": 900}]}
GOOD = {"o2": ".18o", "o3": ".rnx", "n2": ".18n", "n3": ".nav.rnx", "sp3": ".sp3", "o2gz": ".18o.gz", "crx": ".crx", "o3Z": ".rnx.Z", "n3zip": ".rnx.zip", "crxbz2": ".crx.bz2", "link": ".rnx"}
BAD = {"empty": ".18o", "blank": ".rnx", "text": ".txt", "bin": ".18o", "short": ".18o", "ver4": ".rnx", "met": ".18m", "rinex2h": ".18h", "badgz": ".18o.gz", "cutgz": ".rnx.gz", "gztext": ".txt.gz", "cutbz2": ".18o.bz2",
       "badZ": ".18o.Z", "cutZ": ".18o.Z", "badzip": ".zip", "emptyzip": ".zip", "emptygz": ".18o.gz", "cutcrx": ".crx", "badcrx": ".crx", "cutsp3": ".sp3", "badsp3": ".sp3", "nohdr": ".rnx", "badtypes": ".18o", "junknc": ".nc", "cuto3": ".rnx",
       "badnum": ".18o", "dir": ".18o", "done": ".18o", "donegarb": ".18n", "donesp3": ".sp3", "dangling": ".rnx", "loop": ".18o", "fifo": ".rnx"}


@lru_cache(maxsize=None)
def content(k, later=False):
    """later: other data of the same kind"""
    from hatanaka import rnx2crx
    from ncompress import compress
    O2, O3, N2, N3, SP3 = (dict(d, t0="2018-07-30T00:00:00") if later else d for d in (O2_, O3_, N2_, N3_, SP3_))
    t = {"o2": O2, "o3": O3, "link": O3, "n2": N2, "n3": N3, "sp3": SP3, "done": O2, "donegarb": N2, "donesp3": SP3}
    if k in t:
        return render(t[k]).encode()
    o2, o3, n3 = render(O2).encode(), render(O3).encode(), render(N3).encode()
    f = io.BytesIO()
    if k in ("n3zip", "badzip", "emptyzip"):
        with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED) as z:
            if k != "emptyzip":
                z.writestr("x.rnx", n3)
    crx = rnx2crx(o2.decode())
    return {
        "o2gz": lambda: gzip.compress(o2), "crx": lambda: crx.encode(), "o3Z": lambda: compress(o3), "n3zip": f.getvalue, "crxbz2": lambda: bz2.compress(crx.encode()),
        "empty": lambda: b"", "blank": lambda: b"\n" * 20, "text": lambda: b"Lorem ipsum dolor sit amet\n" * 9, "bin": lambda: bytes(range(256)) * 4, "short": lambda: o2[:50],
        "ver4": lambda: (first_line("4.00", "OBSERVATION DATA", "M") + "\n" + hl("", "END OF HEADER") + "\n").encode(),
        "met": lambda: (first_line("2.11", "METEOROLOGICAL DATA", "") + "\n" + hl("", "END OF HEADER") + "\n").encode(),
        "rinex2h": lambda: (first_line("2.11", "H: GEO NAV MSG DATA", "") + "\n" + hl("", "END OF HEADER") + "\n").encode(),
        "badgz": lambda: b"\x1f\x8b\x08\x00garbage" * 9, "cutgz": lambda: gzip.compress(o3)[:-30], "gztext": lambda: gzip.compress(b"Lorem ipsum\n" * 50), "cutbz2": lambda: bz2.compress(o2)[:-20],
        "badZ": lambda: b"\x1f\x9d\x90" + b"\xff" * 40, "cutZ": lambda: compress(o2)[:2], "badzip": lambda: f.getvalue()[:-8], "emptyzip": f.getvalue, "emptygz": lambda: gzip.compress(b""),
        "cutcrx": lambda: crx[:200].encode(), "badcrx": lambda: crx.replace("&", "?").replace(">", "?")[:-60].encode() + b"garbage\n" * 5,
        "cutsp3": lambda: render(SP3).encode()[:300], "badsp3": lambda: b"#b" + render(SP3).encode()[2:], "nohdr": lambda: o3.split(b"\n")[0] + b"\n",
        "badtypes": lambda: o2.replace(b"     7    C1", b"   abc    C1"), "junknc": lambda: b"not NetCDF at all", "cuto3": lambda: o3[:700] + b"\n",
        "badnum": lambda: o2.replace(b"G01", b"G0x"), "dir": lambda: None}[k]()


def spaces(tier):
    big = tier == "thorough"
    allk = list(GOOD) + list(BAD)

    def A():
        yield {"f": []}
        for k in allk:
            for o in ({}, {"use": ["R"]}, {"w": [0, 10]}, {"ind": True, "meas": ["C1"]}, {"fast": False}):
                yield {"f": [k], **o}
        for a, b in permutations(allk, 2):
            if big or a in BAD and b in GOOD or (a in GOOD and b in GOOD and allk.index(a) < 4 and allk.index(b) < 4):
                yield {"f": [a, b]}
    yield ("pairs", A())

    def B():
        for b in BAD:
            for o in ({"use": ["R"]}, {"w": [10, 5000], "ind": True}, {"meas": ["C"], "fast": False}):
                yield {"f": [b, "o3", b, "n3"], **o}
        for bs in permutations(list(BAD)[:28:4] if not big else list(BAD)[::2], 2):
            yield {"f": [bs[0], "o2", bs[1], "n3", bs[0], "o3"]}
        for g in permutations(["o2", "o3", "n2", "n3"], 3):
            yield {"f": g}
        for g in permutations(["text", "o2", "cutgz", "n3"], 4):
            yield {"f": g}
    yield ("longer", B())

    def C():  # patterns, nested directories, same directory, the whole zoo
        for pat in ("*", "*.18o", "*o", "*.rnx*", "nothing*", "*/*", "**/*", "?1_*", "*.[ct]rx", "*.gz"):
            for where in ("out", "same", "sub"):
                for files in (allk, allk[::-1], ["o2", "text", "o2gz", "n3"]):
                    yield {"f": list(files), "pat": pat, "where": where}
        for o in ({"use": ["R"]}, {"use": ["G"], "ind": True}, {"w": [20, 40]}, {"use": ["E", "R"], "meas": ["L", "C"]}):
            yield {"f": allk, **o}
        # names of files
        for pre in (".", " ", "a b ", "~", "#", "-o", "[a]", "{b}", "a.b.", ".nc", "x.nc.", "\u00e4", "F" * 150, "$HOME", "%41", "rnx", "&;'"):
            for o in ({}, {"use": ["R"]}):
                yield {"f": ["o2", "text", "o3", "n2", "sp3", "o2gz", "crx"], "pre": pre, **o}
    yield ("directories", C())


def single(fn, opts, ctx):
    import georinex as gr
    ds, e = attempt(gr.load, fn, **opts)
    return ds if e is None else None


def outputs(d):
    return {p.name: p.read_bytes() for p in d.iterdir() if p.is_file()}


SERIAL = iter(range(10**9))


def same_content(ctx, a: bytes, b: bytes):
    """NetCDF files with the same data (they need not be the same bytes)"""
    if a == b:
        return True
    n = next(SERIAL)
    fa, fb = ctx.write(f"cmp/{n}a.nc", a), ctx.write(f"cmp/{n}b.nc", b)
    for g in (None, "OBS", "NAV"):
        r = []
        for f in (fa, fb):
            try:
                r.append(xarray.load_dataset(f, group=g))
            except Exception:
                r.append(None)
        if (r[0] is None) != (r[1] is None) or r[0] is not None and not r[0].identical(r[1]):
            return False
    return True


def run(case, ctx):
    import georinex as gr
    src = ctx.path("in")
    src.mkdir()
    out = {"out": ctx.path("out"), "same": src, "sub": src / "sub"}[case.get("where", "out")]
    out.mkdir(exist_ok=True)
    files = []
    other = gr.load(ctx.write("other.rnx", render(O3G)))
    for i, k in enumerate(case["f"]):
        fn = src / (case.get("pre", "f") + f"{i}_{k}" + (GOOD | BAD)[k])
        if k == "dir":
            fn.mkdir()
            (fn / "x.18o").write_bytes(content("o2"))
            files.append(fn)
            continue
        files.append(fn)
        if k == "link":
            fn.symlink_to(ctx.write("elsewhere/x.dat", content("o3")))
            continue
        if k in ("dangling", "loop"):
            fn.symlink_to(fn if k == "loop" else ctx.path("nowhere"))
            continue
        if k == "fifo":
            os.mkfifo(fn)
            continue
        fn.write_bytes(content(k))
        if k.startswith("done"):
            dst = out / (fn.name + ".nc")
            if k == "donegarb":
                must(gr.load, ctx.write("othern.rnx", render(N3_)), dst)
            else:
                must(gr.load, ctx.write("other.rnx", render(O3G)), dst)
    existing = outputs(out)
    a, _ = opts_of(dict(case, doc=O3_))
    # what single loads give
    pat = case.get("pat", "*")
    rank = {p: i for i, p in enumerate(files)}
    real = Path.glob

    def ordered(self, *x, **k):
        r = list(real(self, *x, **k))
        return iter(sorted(r, key=lambda p: (rank.get(p, 10**6), str(p))))

    match = [p for p in real(src, pat) if p.is_file()]
    expect = {}
    ro = {k: v for k, v in a.items()}
    for p in match:
        if p.suffix == ".nc" or p.name + ".nc" in existing:
            continue
        ds = single(p, ro, ctx)
        if ds is not None:
            expect.setdefault(p.name + ".nc", []).append(ds)
    if not a.get("use"):
        for p, k in zip(files, case["f"]):
            if k in GOOD and p in match and p.name + ".nc" not in expect:
                raise Violation(f"load of {p.name} fails")
    Path.glob = ordered
    try:
        must(gr.batch_convert, src, pat, out, _what=f"batch_convert of {[p.name for p in files]}", **a)
        got = outputs(out)
        want = set(existing) | set(expect)
        if set(got) != want:
            raise Violation(f"batch_convert of {[p.name for p in files]}: outputs {sorted(set(got) - want)} too many, {sorted(want - set(got))} missing")
        for n, b in existing.items():
            if got[n] != b:
                raise Violation(f"batch_convert: existing {n} was changed")
        for n, dss in expect.items():
            p = ctx.write(f"probe/{next(SERIAL)}.nc", got[n])
            last = None
            for ds in dss:  # files of the same name in different directories: one of them
                g = {"obs": "OBS", "nav": "NAV"}.get(ds.attrs.get("rinextype", "obs" if "Nepoch" not in ds.attrs else ""))
                try:
                    with must(xarray.open_dataset, p, group=g, _what=f"opening the output of {n}") as x:
                        same(ds, x, f"output {n}", g is None)
                    break
                except Violation as v:
                    last = v
            else:
                raise last
        for p in files:
            if p.is_file() and p.parent == src and p.read_bytes() != content(case["f"][rank[p]]):
                raise Violation(f"input {p.name} was changed")
        for p, k in zip(files, case["f"]):  # outputs stay, even if their inputs are replaced
            if k in GOOD and p.parent == src and p in match:
                p.write_bytes(content(k, True))
        must(gr.batch_convert, src, pat, out, _what=f"second batch_convert of {[p.name for p in files]}", **a)
        again = outputs(out)
        extra = {n for n in set(again) - set(got) if not (out == src or pat in ("*/*", "**/*"))}
        lost = set(got) - set(again)
        if extra or lost:
            raise Violation(f"second batch_convert: {sorted(extra)} appeared, {sorted(lost)} disappeared")
        for n in got:
            if not same_content(ctx, got[n], again[n]):
                raise Violation(f"second batch_convert: {n} was changed")
    finally:
        Path.glob = real
    return Obs(digest((sorted(expect), sorted(existing))), transitions=2 * len(files), states=len(files) + 1, execs=2, trivial=not expect)
