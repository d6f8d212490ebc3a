"""C19: a call's result depends only on its own arguments."""
import copy
import io
import os
import shutil
import tempfile
from datetime import datetime, timedelta
from functools import lru_cache
from itertools import permutations, product
from pathlib import Path
import multiprocessing as mp
import numpy as np
import pandas
import xarray
from ..core import Ctx, Obs, Violation, digest, quiet
from ..docs import DEFHDR, hl, render
from ..observe import norm_attr, times_ns
from ..small import OBS

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all call sequences up to a depth over an alphabet of calls, files and shared arguments; every result compared with that of a fresh process"
RULE = "one case = one sequence of calls in one process: each result as in a fresh process, arguments, files, streams and earlier results unchanged; trivial = every call raises"
ASSUMPTIONS = ["the alphabet of calls in mc/checks/c19.py", "results are overwritten by the caller in half of the cases"]
CHUNK = 6

O2A = dict(OBS["o2m"], ev=OBS["o2m"]["ev"][:2])
O2B = dict(OBS["o2g"], ev=OBS["o2g"]["ev"][:2])
O2C = dict(O2B, t0="2018-07-30T00:00:00", pos=(3970000.9234, -1400000.1678, 4760000.2012), interval=15)  # same length
O3A = dict(OBS["o3m"], ev=OBS["o3m"]["ev"][:3])
N2 = {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200}]}
N2R = {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 900}]}
KEP = {"0": 1e-4, "4": 50.0, "5": 4.5e-9, "6": 1.0, "7": 1e-6, "8": 0.01, "9": 8e-6, "10": 5153.6, "11": 0.0, "12": 1e-7, "13": 2.0, "14": 1e-7, "15": 0.96, "16": 200.0, "17": 0.5, "18": -8e-9, "19": 1e-10, "21": 2012.0}
N3 = {"k": "n3", "ev": [{"sv": "R01", "t": 0}, {"sv": "G22", "t": 7200, "v": KEP}, {"sv": "R01", "t": 0}, {"sv": "E01", "t": 600, "rs": 1}, {"sv": "E01", "t": 1200, "nf": 27}],
      "hdr": [hl("GPSA   0.1118E-07  0.2235E-07 -0.5960E-07 -0.1192E-06", "IONOSPHERIC CORR"), hl("GPSB   0.1167E+06  0.1802E+06 -0.1311E+06 -0.4588E+06", "IONOSPHERIC CORR")]}
SP3 = {"k": "sp3", "v": "c", "sv": ["G01", "R02"], "ev": [{"e": 0}, {"e": 900, "s": ["R02"]}]}
SP3V = {"k": "sp3", "v": "c", "vel": True, "sv": ["G01", "R02"], "ev": [{"e": 0}, {"e": 900}]}
DOCS = {"a.18o": O2A, "b.18o": O2B, "a.rnx": O3A, "a.18n": N2, "b.18g": N2R, "b.rnx": N3, "a.sp3": SP3, "v.sp3": SP3V,
        # records with and without trailing spare fields
        "i.rnx": {"k": "n3", "ev": [{"sv": "I01", "t": 0, "nf": 28}, {"sv": "G01", "t": 0, "nf": 28}, {"sv": "C05", "t": 0, "nf": 27}, {"sv": "J01", "t": 0}, {"sv": "E01", "t": 0, "nf": 27}]},
        "j.rnx": {"k": "n3", "ev": [{"sv": "C05", "t": 0, "nf": 31}, {"sv": "E01", "t": 0, "nf": 29}, {"sv": "I01", "t": 0, "nf": 31}, {"sv": "G01", "t": 0, "nf": 31}, {"sv": "S20", "t": 0}]}}


def later(d, **kw):
    return dict(d, t0="2018-07-30T00:00:00", **kw)


# files that are replaced by others of the same size and modification time between calls
SWAP = {"x.18o": (O2B, O2C), "x.rnx": (O3A, later(O3A, pos=(1.0e6, -2.0e6, 5.9e6))),
        "x.18n": (N2, later(N2)), "xn.rnx": (N3, later(N3, hdr=N3["hdr"][::-1])), "x.sp3": (SP3, later(SP3))}


@lru_cache(maxsize=None)
def texts():
    t = {n: render(d) for n, d in DOCS.items()}
    return t, tuple(swapped(v) for v in (0, 1))


@lru_cache(maxsize=None)
def swapped(v):
    """name -> content of the v-th variant"""
    from hatanaka import rnx2crx
    out = {}
    for n, dd in SWAP.items():
        a, b = (render(d) for d in dd)
        assert len(a) == len(b) and a != b, n
        out[n] = (a, b)
    out["x.crx"] = tuple(rnx2crx(x) for x in out["x.18o"])
    assert len(out["x.crx"][0]) == len(out["x.crx"][1])
    out = {k: x[v].encode("ascii") for k, x in out.items()}
    out["x.gz"] = stored_gzip(out["x.18o"])
    return out


def stored_gzip(b):
    import gzip
    return gzip.compress(b, 0, mtime=0)


@lru_cache(maxsize=None)
def crx():
    from hatanaka import rnx2crx
    return rnx2crx(texts()[0]["b.18o"])


class World:
    """the files, streams and argument objects that the calls of a sequence share"""

    def __init__(self, d: Path):
        self.d = d
        d.mkdir(parents=True, exist_ok=True)
        t, x = texts()
        for n, s in t.items():
            (d / n).write_text(s)
        (d / "c.crx").write_text(crx())
        (d / "bad.18o").write_text("no RINEX\n" * 3)
        (d / "cut.18o").write_text(t["b.18o"][:-200])
        self.put(0)
        self.s2 = io.StringIO(t["a.18o"])
        self.s3 = io.StringIO(t["a.rnx"])
        self.sn = io.StringIO(t["b.rnx"])
        self.use = {"G", "R", "J"}  # J is in no file
        self.uselist = ["R"]
        self.meas = ["C", "L1", "X9"]
        self.measx = [" "]
        self.tlim = [datetime(2018, 7, 29), datetime(2018, 7, 29, 0, 0, 30)]
        self.tstr = ["2018-07-29T00:00:00", "2018-07-29T00:00:30"]
        self.iv = timedelta(seconds=60)
        self.files = [d / "a.18o", d / "a.rnx", d / "bad.18o", d / "a.18n"]
        self.n = 0

    def put(self, v):
        for n, b in texts()[1][v].items():
            p = self.d / n
            p.write_bytes(b)
            os.utime(p, (1_600_000_000, 1_600_000_000))
        self.v = v

    def args(self):
        return [set(self.use), list(self.uselist), list(self.meas), list(self.measx), list(self.tlim), list(self.tstr), self.iv, list(self.files)] + \
               [s.getvalue() for s in (self.s2, self.s3, self.sn)]

    def disk(self):
        return {p.name: p.read_bytes() for p in self.d.iterdir() if p.is_file()}


def _convert(g, w, name):
    w.n += 1
    o = w.d / "out" / f"{w.n}.nc"
    o.parent.mkdir(exist_ok=True)
    g.load(w.d / name, o)
    return g.load(o)


def _batch(g, w):
    w.n += 1
    o = w.d / "out" / str(w.n)
    o.mkdir(parents=True)
    g.batch_convert(w.d, "?.18?", o, use=w.use, meas=w.meas)
    return {p.name: g.load(p) for p in sorted(o.iterdir())}


def _kep(g, w):
    return g.keplerian2ecef(g.load(w.d / "b.rnx").sel(sv="G22"))


def _loc(g, w):
    import georinex.geo as geo
    return geo.get_locations(w.files)


OPS = {
    "load2": lambda g, w: g.load(w.d / "a.18o"),
    "load2b": lambda g, w: g.load(str(w.d / "b.18o"), fast=False),
    "load2use": lambda g, w: g.load(w.d / "a.18o", use=w.use, meas=w.meas),
    "load2ind": lambda g, w: g.load(w.d / "b.18o", useindicators=True, meas=w.measx, interval=w.iv),
    "load2lim": lambda g, w: g.load(w.d / "b.18o", tlim=w.tlim, interval=60),
    "loadcut": lambda g, w: g.load(w.d / "cut.18o"),
    "loadx": lambda g, w: g.load(w.d / "x.18o"),
    "timex": lambda g, w: g.gettime(w.d / "x.18o"),
    "headx": lambda g, w: g.rinexheader(w.d / "x.18o"),
    "locx": lambda g, w: __import__("georinex.geo").geo.get_locations([w.d / "x.18o"]),
    "crxx": lambda g, w: g.load(w.d / "x.crx"),
    "gzx": lambda g, w: g.load(w.d / "x.gz", use="G"),
    "load3x": lambda g, w: g.load(w.d / "x.rnx", use=w.use),
    "time3x": lambda g, w: g.gettime(w.d / "x.rnx"),
    "loadn2x": lambda g, w: g.load(w.d / "x.18n"),
    "loadn3x": lambda g, w: g.load(w.d / "xn.rnx"),
    "headnx": lambda g, w: g.rinexheader(w.d / "xn.rnx"),
    "sp3x": lambda g, w: g.load(w.d / "x.sp3"),
    "load3set": lambda g, w: g.load(w.d / "a.rnx", use=w.use, meas=w.meas, tlim=w.tlim),
    "load3": lambda g, w: g.load(w.d / "a.rnx", verbose=True),
    "load3use": lambda g, w: g.load(w.d / "a.rnx", use=w.uselist, meas=w.meas, useindicators=True),
    "load3str": lambda g, w: g.load(w.d / "a.rnx", tlim=w.tstr, interval=30.0),
    "loadn2": lambda g, w: g.load(w.d / "a.18n"),
    "loadn2r": lambda g, w: g.load(w.d / "b.18g", tlim=w.tlim),
    "loadn3": lambda g, w: g.load(w.d / "b.rnx"),
    "loadni": lambda g, w: g.load(w.d / "i.rnx"),
    "loadnj": lambda g, w: g.load(w.d / "j.rnx"),
    "loadn3use": lambda g, w: g.load(w.d / "b.rnx", use=w.use, tlim=w.tstr),
    "sp3": lambda g, w: g.load(w.d / "a.sp3"),
    "sp3v": lambda g, w: g.load(w.d / "v.sp3"),
    "crx": lambda g, w: g.load(w.d / "c.crx", use="G"),
    "s2": lambda g, w: g.load(w.s2),
    "s2t": lambda g, w: g.gettime(w.s2),
    "s2h": lambda g, w: g.rinexheader(w.s2),
    "s2i": lambda g, w: g.rinexinfo(w.s2),
    "s3": lambda g, w: g.load(w.s3, meas=["C"]),
    "s3t": lambda g, w: g.gettime(w.s3),
    "sn": lambda g, w: g.load(w.sn),
    "snh": lambda g, w: g.rinexheader(w.sn),
    "time3": lambda g, w: g.gettime(w.d / "a.rnx"),
    "timen": lambda g, w: g.gettime(w.d / "b.rnx"),
    "head2": lambda g, w: g.rinexheader(w.d / "a.18o"),
    "head3": lambda g, w: g.rinexheader(w.d / "a.rnx"),
    "headn": lambda g, w: g.rinexheader(w.d / "b.rnx"),
    "info": lambda g, w: g.rinexinfo(w.d / "b.rnx"),
    "bad": lambda g, w: g.load(w.d / "bad.18o"),
    "badarg": lambda g, w: g.load(w.d / "a.18o", interval=-1),
    "badlim": lambda g, w: g.load(w.d / "a.rnx", tlim=w.tstr[::-1]),
    "missing": lambda g, w: g.load(w.d / "missing.18o"),
    "conv2": lambda g, w: _convert(g, w, "b.18o"),
    "convn": lambda g, w: _convert(g, w, "b.rnx"),
    "batch": _batch,
    "kep": _kep,
    "loc": _loc,
    "put0": lambda g, w: w.put(0),
    "put1": lambda g, w: w.put(1),
}
XOPS = ["loadx", "timex", "headx", "locx", "crxx", "gzx", "load3x", "time3x", "loadn2x", "loadn3x", "headnx", "sp3x"]
DEEP = ["load2", "load2use", "loadx", "headx", "load3", "load3use", "loadn3", "loadn2", "sp3", "s2", "s3", "sn", "bad", "put1", "put0", "kep"]
CHEAP = ["loadx", "timex", "headx", "put0", "put1", "load3", "load3use", "load3str", "s3", "s3t", "s2t", "s2h", "snh", "sn", "headn", "loadn2", "loadn2r", "sp3", "sp3v", "badlim"]


def canon(x):
    if isinstance(x, xarray.Dataset):
        out = []
        for n in sorted(x.variables, key=str):
            v = x[n]
            if n not in ("time", "sv") and set(v.dims) == {"time", "sv"}:
                v = v.transpose("time", "sv").sortby(["time", "sv"])
            elif n in ("time", "sv") and v.ndim:
                out.append((n, digest(sorted(np.atleast_1d(v.values).tolist()))))
                continue
            a = np.ascontiguousarray(v.values)
            out.append((str(n), v.dims, a.dtype.kind, digest(a.tolist() if a.dtype.kind in "UO" else a.tobytes())))
        return ("Dataset", out, canon(x.attrs))
    if isinstance(x, xarray.DataArray):
        return ("DataArray", np.asarray(x.values).tobytes())
    if isinstance(x, dict):
        return ("dict", sorted((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, pandas.DataFrame):
        return ("df", x.to_csv())
    if isinstance(x, np.ndarray) and x.dtype.kind == "M":
        return ("times", times_ns(x))
    if isinstance(x, (list, tuple)):
        return ("list", [canon(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("arr", repr(norm_attr(x)))
    if isinstance(x, slice):
        return ("slice", repr(x))
    return repr(norm_attr(x))


def scribble(x):
    """what a user may do to a result"""
    if isinstance(x, (xarray.Dataset,)):
        for n in list(x.data_vars):
            try:
                x[n].values[...] = -12345.0
            except Exception:
                pass
        x.attrs["scribble"] = 1
        for v in x.attrs.values():
            if isinstance(v, list):
                v.append("scribble")
            elif isinstance(v, np.ndarray):
                v.fill(-1)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        x.append("scribble")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, (np.ndarray, xarray.DataArray)):
        try:
            a = x if isinstance(x, np.ndarray) else x.values
            a[...] = a[::-1].copy() if a.dtype.kind == "M" else -1
        except Exception:
            pass


def call(op, g, w):
    try:
        r = OPS[op](g, w)
        return r, canon(r)
    except (MemoryError, RecursionError):
        raise
    except Exception as e:
        return None, ("raised", type(e).__name__)


FRESH = {}


def _fresh(q):
    import georinex as g
    d = tempfile.mkdtemp(prefix="c19_")
    res = {}
    try:
        op, v = q
        w = World(Path(d) / "w")
        w.put(v)
        with quiet():
            res = call(op, g, w)[1]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def prepare(tier):
    if FRESH:
        return
    jobs = [(op, v) for op in OPS for v in ((0, 1) if op in XOPS + ["batch"] else (0,)) if not op.startswith("put")]
    crx()
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for j, r in zip(jobs, p.map(_fresh, jobs, chunksize=1)):
            FRESH[j] = r


def spaces(tier):
    big = tier == "thorough"
    names = list(OPS)

    def A():
        for a, b in product(names, repeat=2):
            yield {"seq": [a, b], "scr": True}
            if big:
                yield {"seq": [a, b], "scr": False}
    yield ("pairs", A())

    def B():
        for s in product(CHEAP if big else CHEAP[:12], repeat=3):
            if sum(x[:3] == "put" for x in s) < 2 and s[-1][:3] != "put":
                yield {"seq": s, "scr": s[0] != s[1]}
        if big:
            for s in product(DEEP, repeat=3):
                yield {"seq": s, "scr": False}
    yield ("triples", B())

    def R():  # files replaced by others of the same size and modification time
        for a, b in product(XOPS, repeat=2):
            yield {"seq": [a, "put1", b, "put0", a], "scr": True}
            yield {"seq": [a, b, "put1", a, b], "scr": False}
    yield ("replaced files", R())

    def C():  # long runs: every operation after all others, in several orders
        n = len(names)
        for k in range(0, n, 1 if big else 3):
            r = names[k:] + names[:k]
            yield {"seq": r, "scr": True}
            yield {"seq": r[::-1], "scr": False}
            if big:
                yield {"seq": [x for y in r for x in (y, y)], "scr": False}
    yield ("rotations", C())


def run(case, ctx):
    import georinex as g
    w = World(ctx.path("w"))
    args = w.args()
    disk = w.disk()
    held = []
    ntriv = 0
    for i, op in enumerate(case["seq"]):
        what = f"call {i + 1} ({op}) of {' '.join(case['seq']) if len(case['seq']) < 8 else f'{len(case['seq'])}'}"
        r, c = call(op, g, w)
        if op.startswith("put"):
            disk = dict(disk, **texts()[1][w.v])
            continue
        exp = FRESH.get((op, w.v), FRESH.get((op, 0)))
        ntriv += c[0] == "raised"
        if c != exp:
            raise Violation(f"{what}: result differs from that in a fresh process: {first_diff(c, exp)}")
        if w.args() != args:
            k = [n for n, (x, y) in enumerate(zip(w.args(), args)) if x != y][0]
            raise Violation(f"{what}: an argument was changed: {str(w.args()[k])[:200]}, was {str(args[k])[:200]}")
        if w.disk() != disk:
            raise Violation(f"{what}: files were changed: {sorted(set(w.disk()) ^ set(disk)) or [n for n in disk if disk[n] != w.disk().get(n)]}")
        if case["scr"]:
            scribble(r)
        elif c[0] != "raised":
            held.append((what, r, c))
    for what, r, c in held:
        if canon(r) != c:
            raise Violation(f"{what}: the result was changed by a later call: {first_diff(canon(r), c)}")
    return Obs(digest(case["seq"]), transitions=len(case["seq"]), states=len(case["seq"]) + 1, execs=len(case["seq"]), trivial=ntriv == len(case["seq"]))


def first_diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y)
    return f"{str(a)[:200]}, should be {str(b)[:200]}"
