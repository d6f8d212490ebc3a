"""C23: command line options act like the API's."""
import contextlib
import io
import logging
import os
import re
import runpy
import subprocess
import sys
from datetime import datetime, timedelta
from itertools import combinations, permutations, product
from pathlib import Path
import numpy as np
import xarray
from ..core import REPO, Obs, Violation, digest
from ..docs import DEFHDR, render
from ..observe import attempt
from ..small import OBS, T0
from . import c17

BAD = {k: v for k, v in c17.BAD.items() if k not in ("dangling", "loop", "fifo")}  # those have no content
ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of command lines (option subsets, values, positions, directory contents) run on the real modules; stdout, reports and files compared with the API calls they stand for"
RULE = "one case = one command line: output text, NetCDF files and reported files equal those of load, batch_convert or gettime with these options; trivial = the API call fails"
ASSUMPTIONS = ["modules run by runpy in the checking process, and as processes of their own in the last space", "plots (-p) are not covered"]
CHUNK = 20

DOCS = {"o2m": OBS["o2m"], "o3m": OBS["o3m"], "o2g": OBS["o2g"], "o3g": OBS["o3g"],
        "n2": {"k": "n2", "ft": "N", "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 30}, {"sv": "G01", "t": 90}]},
        "n3": {"k": "n3", "ev": [{"sv": "G01", "t": 0}, {"sv": "R22", "t": 30}, {"sv": "E01", "t": 90}]},
        "sp3": {"k": "sp3", "v": "c", "sv": ["G01", "R02"], "ev": [{"e": 0}, {"e": 900}]}}
EXT = {"o2m": "18o", "o3m": "rnx", "o2g": "18o", "o3g": "rnx", "n2": "18n", "n3": "nav.rnx", "sp3": "sp3"}
W = {"in": ["2018-07-29T00:00:30", "2018-07-29T00:01:00"], "sp": ["2018-07-29 00:00:10", "2018-07-29 00:01:35"], "rev": ["2018-07-29T00:01", "2018-07-29T00:00"], "out": ["2019-01-01", "2019-01-02"]}


def spaces(tier):
    big = tier == "thorough"
    U = [None, ["G"], ["R", "E"]] + ([["E"], ["G", "R", "E"]] if big else [])
    M = [None, ["C1"], ["L", "S1"]] + ([["C", "L1C", "P2"]] if big else [])

    def A():
        for f in ("o3m", "o2m"):
            for u, m, w, ind, st, iv, out in product(U, M, [None, "in"], (0, 1), (0, 1), [None, 60.0], [None, "dir", "nc"]):
                if not big and (st and f == "o3m" and out == "nc" or ind and out == "dir"):
                    continue
                yield {"cmd": "read", "f": f, "u": u, "m": m, "w": w, "ind": ind, "st": st, "iv": iv, "o": out}
        for f in DOCS:
            for u in (None, ["G"], ["R"], ["E"], ["C", "G"], ["J"], ["S"], ["I"], ["X"]):
                for w in (None, "in", "sp", "rev", "out"):
                    for out in (None, "dir", "nc", "txt"):
                        if big or w in (None, "sp", "rev") or out == "nc":
                            yield {"cmd": "read", "f": f, "u": u, "w": w, "o": out}
        for f in ("o2m", "o3m", "o2g", "o3g"):
            for iv in (0.0, 0.5, 30.0, 45.5, 1000.0, -1.0):
                for w in (None, "sp"):
                    for st in (0, 1):
                        yield {"cmd": "read", "f": f, "iv": iv, "w": w, "st": st, "o": "nc"}
            for m in (["C1C"], ["P2", "L2"], ["XX"], ["C", "L", "S", "D", "P"], [""]):
                for ind in (0, 1):
                    yield {"cmd": "read", "f": f, "m": m, "ind": ind, "u": ["G"]}
        opts = ["u", "m", "w", "i"]
        for order in permutations(opts):  # order of the options, long forms, file first or last
            for long in (0, 1):
                for last in (0, 1):
                    for f in ("o2m", "o3m"):
                        yield {"cmd": "read", "f": f, "u": ["G"], "m": ["C"], "w": "in", "iv": 30.0, "order": order, "long": long, "last": last, "ind": 1, "v": last}
        for f in list(DOCS) + list(BAD):
            yield {"cmd": "read", "f": f}
            yield {"cmd": "read", "f": f, "o": "nc", "v": 1}
    yield ("read", A())

    def B():
        for u, m, w, ind, st in product(U, M, [None, "in"], (0, 1), (0, 1)):
            yield {"cmd": "rinex2hdf5", "fs": ["o2", "text", "o3", "n2", "n3"], "u": u, "m": m, "w": w, "ind": ind, "st": st, "o": "dir"}
        for pat in (None, "*", "*o", "*.rnx", "f1*", "zzz", "*.18?", "[!f]*"):
            for out in ("dir", "nc", None, "same", "txt"):
                for v in (0, 1):
                    yield {"cmd": "rinex2hdf5", "fs": ["o2", "o3", "cutgz", "o2gz", "sp3"], "pat": pat, "o": out, "v": v}
        for k in list(c17.GOOD) + list(BAD):
            yield {"cmd": "rinex2hdf5", "fs": [k, "o2"], "o": "dir"}
    yield ("rinex2hdf5", B())

    def C():
        files = list(c17.GOOD) + list(BAD) + TIMES
        for k in files:
            yield {"cmd": "time", "fs": [k]}
            yield {"cmd": "time", "fs": [k], "one": 1}
            yield {"cmd": "time", "fs": [k, "o2", "n3"]}
        for a, b in permutations(files, 2):
            if big or (a in BAD and b in ("o2", "n3", "int0", "o3hz")):
                yield {"cmd": "time", "fs": [a, b]}
        for pats in (["*"], ["*o"], ["*.rnx"], ["*o", "*.rnx"], ["f0*", "f1*"], ["zzz"], ["zzz", "f2*"], ["*n"], ["*.gz", "*.18n"]):
            for fs in (["o2", "o3", "text", "n2", "o2gz"], files):
                yield {"cmd": "time", "fs": fs, "glob": pats}
        for fs in combinations(["o2", "n2", "cutgz", "donc", "cuto3"], 3):
            yield {"cmd": "time", "fs": list(fs), "home": 1}
        yield {"cmd": "time", "fs": [], "one": 1}
        yield {"cmd": "time", "fs": []}
    yield ("time", C())

    def D():
        for c in ({"cmd": "read", "f": "o3m", "u": ["G", "E"], "m": ["L1"], "w": "in", "o": "nc"}, {"cmd": "read", "f": "o2m", "iv": 60.0, "ind": 1, "st": 1, "o": "dir"}, {"cmd": "read", "f": "n3", "u": ["R"], "o": "nc"},
                  {"cmd": "read", "f": "text"}, {"cmd": "rinex2hdf5", "fs": ["o2", "text", "o3", "cutgz", "n3"], "u": ["G"], "w": "sp", "o": "dir"}, {"cmd": "rinex2hdf5", "fs": ["o2", "o3"], "pat": "*o", "m": ["C"], "o": "dir"},
                  {"cmd": "time", "fs": ["o2", "cutgz", "n3", "done", "donc"]}, {"cmd": "time", "fs": ["o2", "o3", "n2"], "glob": ["*o", "*n"]}, {"cmd": "time", "fs": ["o3"], "one": 1}, {"cmd": "time", "fs": ["cutgz"], "one": 1}):
            yield dict(c, proc=1)
    yield ("processes", D())


def _d(k, **x):
    return dict(OBS[k], **x)


EXTRA = {  # name: (suffix, document)
    "int0": (".18o", _d("o2g", hdr=DEFHDR, interval=0)), "int0_3": (".rnx", _d("o3g", hdr=DEFHDR, interval=0)),
    "o2hz": (".18o", _d("o2g", hdr=DEFHDR, interval=0.1, ev=[dict(e, e=i / 10) for i, e in enumerate(OBS["o2g"]["ev"])])),
    "o3hz": (".rnx", _d("o3g", hdr=DEFHDR, interval=0.1, ev=[dict(e, e=i / 10) for i, e in enumerate(OBS["o3g"]["ev"])])),
    "gap": (".rnx", _d("o3m", ev=[OBS["o3m"]["ev"][i] for i in (0, 1, 4)])), "intbad": (".18o", _d("o2g", hdr=["types", "int_bad"])), "noep2": (".18o", _d("o2g", ev=[])), "noep3": (".rnx", _d("o3g", ev=[])),
    "one": (".18o", _d("o2g", ev=OBS["o2g"]["ev"][:1], hdr=DEFHDR)), "nonav": (".18n", {"k": "n2", "ft": "N", "ev": []}), "y99": (".18o", _d("o2g", t0="1999-12-31T23:59:00"))}
TIMES = list(EXTRA) + ["donc"]


def make(k, p: Path, ctx):
    """write file k as p + its suffix"""
    import georinex as gr
    if k in EXTRA:
        q, b = EXTRA[k][0], render(EXTRA[k][1]).encode()
    elif k == "donc":
        gr.load(ctx.write("src.rnx", render(OBS["o3g"])), str(p) + ".nc")
        return Path(str(p) + ".nc")
    elif k in DOCS and k not in c17.GOOD:
        q, b = "." + EXT[k], render(DOCS[k]).encode()
    else:
        q, b = (c17.GOOD | BAD)[k], c17.content(k)
    fn = Path(str(p) + q)
    fn.parent.mkdir(parents=True, exist_ok=True)
    if b is None:
        fn.mkdir()
    else:
        fn.write_bytes(b)
    return fn


class Reports(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.out = []

    def emit(self, r):
        self.out.append((r.levelno, r.getMessage()))


def cli(cmd, argv, proc):
    """-> stdout, exception or None, reported text"""
    if proc:
        env = dict(os.environ, PYTHONPATH=str(REPO / "src"))
        r = subprocess.run([sys.executable, "-m", "georinex." + cmd, *argv], capture_output=True, text=True, env=env, timeout=100)
        return r.stdout, None if r.returncode == 0 else RuntimeError(r.stderr[-300:]), r.stderr
    h = Reports()
    root = logging.getLogger()
    old, dis, lev = sys.argv, root.manager.disable, root.level
    handlers = list(root.handlers)
    o = io.StringIO()
    sys.argv = ["georinex." + cmd, *argv]
    try:
        logging.disable(logging.NOTSET)
        root.handlers = [h]
        with contextlib.redirect_stdout(o):
            try:
                runpy.run_module("georinex." + cmd, run_name="__main__")
                e = None
            except SystemExit as x:
                e = None if not x.code else x
            except Exception as x:
                e = x
    finally:
        sys.argv = old
        root.handlers = handlers
        root.setLevel(lev)
        logging.disable(dis)
    return o.getvalue(), e, "\n".join(m for lv, m in h.out if lv >= logging.ERROR)


def options(case, out):
    o = {}
    n = {"u": ("-u", "--use"), "m": ("-m", "--meas"), "w": ("-t", "--tlim"), "o": ("-o", "--out"), "v": ("-v", "--verbose")}
    pick = lambda k: n[k][case.get("long", 0)]
    if case.get("u"):
        o["u"] = [pick("u"), *case["u"]]
    if case.get("m"):
        o["m"] = [pick("m"), *case["m"]]
    if case.get("w"):
        o["w"] = [pick("w"), *W[case["w"]]]
    if out:
        o["o"] = [pick("o"), str(out)]
    if case.get("v"):
        o["v"] = [pick("v")]
    if case.get("ind"):
        o["ind"] = ["-useindicators"]
    if case.get("st"):
        o["s"] = ["-strict"]
    if case.get("iv") is not None:
        o["i"] = [f"-interval={case['iv']}"] if case["iv"] < 0 else ["-interval", str(case["iv"])]
    order = list(case.get("order", [])) + [k for k in o if k not in case.get("order", [])]
    return [x for k in order if k in o for x in o[k]]


def api(case):
    a = {}
    if case.get("u"):
        a["use"] = list(case["u"])
    if case.get("m"):
        a["meas"] = list(case["m"])
    if case.get("w"):
        a["tlim"] = [datetime.fromisoformat(x) for x in W[case["w"]]]
    a["useindicators"] = bool(case.get("ind"))
    a["fast"] = not case.get("st")
    a["verbose"] = bool(case.get("v"))
    return a


def dest(case, base, src):
    o = case.get("o")
    d = base / "o"
    d.mkdir(parents=True)
    return {None: None, "dir": d, "nc": d / "my out.nc", "txt": d / "my.txt", "same": src}[o]


def captured(fn, *a, **k):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r, e = attempt(fn, *a, **k)
        if e is None and fn.__name__ == "load":
            print(r)
    return o.getvalue(), r, e


def compare_files(ctx, d1, d2, what):
    a, b = c17.outputs(d1), c17.outputs(d2)
    if set(a) != set(b):
        raise Violation(f"{what}: files {sorted(a)}, the API writes {sorted(b)}")
    for n in a:
        if not c17.same_content(ctx, a[n], b[n]):
            raise Violation(f"{what}: content of {n} is not what the API writes")
    return sorted(a)


def run(case, ctx):
    return {"read": run_read, "rinex2hdf5": run_conv, "time": run_time}[case["cmd"]](case, ctx)


def norm(s, *dirs):
    for d in dirs:
        s = s.replace(str(d), "DIR")
    return s


def run_read(case, ctx):
    import georinex as gr
    fn = make(case["f"], ctx.path("in dir/f"), ctx)
    c, r = ctx.path("cli"), ctx.path("api")
    oc, orf = dest(case, c, None), dest(case, r, None)
    opts = options(case, oc)
    argv = [str(fn), *opts] if not case.get("last") else [*opts, "--", str(fn)]
    k = api(case)
    if case.get("iv") is not None:
        k["interval"] = float(case["iv"])
    exp, ds, e = captured(gr.load, fn, orf, **k)
    what = "python -m georinex.read " + " ".join(Path(x).name if x.startswith("/") else x for x in argv)
    if case.get("u") and set(case["u"]) - set("GCESJRI"):  # argparse's choice
        _, ce, _ = cli("read", argv, case.get("proc"))
        if ce is None:
            raise Violation(f"{what}: accepted an unknown system")
        return Obs("choice", trivial=True)
    out, ce, rep = cli("read", argv, case.get("proc"))
    if (ce is None) != (e is None):
        raise Violation(f"{what}: ends with {type(ce).__name__} {ce}, load with {type(e).__name__} {e}")
    if ce is not None and not case.get("proc") and type(ce) is not type(e):
        raise Violation(f"{what}: ends with {type(ce).__name__} {ce}, load with {type(e).__name__} {e}")
    if ce is None and norm(out, c) != norm(exp, r):
        raise Violation(f"{what}: prints\n{norm(out, c)[:1500]}\ninstead of\n{norm(exp, r)[:1500]}")
    names = compare_files(ctx, c / "o", r / "o", what)
    return Obs(digest((out if ce is None else type(ce).__name__, names)), transitions=1 + len(opts), states=2, execs=2, trivial=e is not None)


def run_conv(case, ctx):
    import georinex as gr
    res = []
    for who in ("cli", "api"):
        base = ctx.path(who)
        src = base / "in"
        src.mkdir(parents=True)
        for i, k in enumerate(case["fs"]):
            fn = make(k, src / f"f{i}_{k}", ctx)
            os.utime(fn, (10**9, 10**9))
        out = dest(case, base, src)
        if who == "cli":
            argv = [str(src)] + ([case["pat"]] if case.get("pat") else []) + options(case, out)
            what = "python -m georinex.rinex2hdf5 " + " ".join(Path(x).name if x.startswith("/") else x for x in argv) + f" of {case['fs']}"
            real = Path.glob
            Path.glob = lambda self, *x, **k: iter(sorted(real(self, *x, **k)))  # the order of visits is the file system's
            try:
                o, e, rep = cli("rinex2hdf5", argv, case.get("proc"))
            finally:
                Path.glob = real
        else:
            real = Path.glob
            Path.glob = lambda self, *x, **k: iter(sorted(real(self, *x, **k)))
            try:
                o, _, e = captured(gr.batch_convert, src, case.get("pat") or "*", out, **api(case))
            finally:
                Path.glob = real
        res.append((o, e))
    (o, e), (ao, ae) = res
    if (e is None) != (ae is None):
        raise Violation(f"{what}: ends with {type(e).__name__} {e}, batch_convert with {type(ae).__name__} {ae}")
    names = compare_files(ctx, ctx.path("cli/o"), ctx.path("api/o"), what)
    names += compare_files(ctx, ctx.path("cli/in"), ctx.path("api/in"), what)
    return Obs(digest((sorted(norm(o, ctx.path("cli")).split()), names)), transitions=len(case["fs"]) + len(argv), states=2, execs=2, trivial=ae is not None)


def run_time(case, ctx):
    import georinex as gr
    src = ctx.path("home/in dir")
    src.mkdir(parents=True)
    fns = [make(k, src / f"f{i}_{k}", ctx) for i, k in enumerate(case["fs"])]
    target = fns[0] if case.get("one") and fns else src / "nothing here" if case.get("one") else src
    pats = case.get("glob") or ["*"]
    from fnmatch import fnmatchcase
    match = fns if case.get("one") else [f for f in fns if any(fnmatchcase(f.name, p) for p in pats)]
    blocks, bad = {}, []
    for f in match:
        if f.is_dir():
            continue
        t, e = attempt(gr.gettime, f)
        if e is not None or t.size == 0:
            bad.append(f.name)
            continue
        h = gr.rinexheader(f)
        iv = h.get("interval")
        a, b = (x.astype("datetime64[us]").astype(datetime) for x in (t[0], t[-1]))
        line = f"{f.name}: {a.isoformat()} {b.isoformat()} {t.size}" + (f" {iv}" if iv is not None and iv == iv else "")
        blocks[line + "\n" + str(t)] = f.name
    arg = str(target)
    old = os.environ.get("HOME")
    if case.get("home"):
        os.environ["HOME"] = str(src.parent)
        arg = "~/in dir"
    argv = [arg] + (["-glob", *case["glob"]] if case.get("glob") else [])
    what = f"python -m georinex.time {' '.join(argv[1:])} of {case['fs']}"
    try:
        out, e, rep = cli("time", argv, case.get("proc"))
    finally:
        if case.get("home"):
            os.environ["HOME"] = old or "/"
    if case.get("one"):
        if e is None and (bad or not fns):
            raise Violation(f"{what}: no error for an unreadable file")
        if e is not None and not bad and fns and not fns[0].is_dir():
            raise Violation(f"{what}: {type(e).__name__} {e}")
    elif e is not None:
        raise Violation(f"{what}: {type(e).__name__} {e}")
    body = out.split("\n", 1)[1] if "\n" in out else ""
    names = "|".join(re.escape(f.name) for f in fns) or "x"
    got = [x.rstrip("\n") for x in re.split(rf"^(?=(?:{names}): )", body, flags=re.M) if x.strip()]
    if not (case.get("one") and e is not None):
        if sorted(got) != sorted(blocks):
            miss = [b for x, b in blocks.items() if x not in got]
            more = [x for x in got if x not in blocks or got.count(x) > 1]
            raise Violation(f"{what}: does not print the times of {miss}; prints {more[:2]}")
        for b in bad:
            if not case.get("one") and b not in rep:
                raise Violation(f"{what}: {b} cannot be read, and is not reported")
    return Obs(digest((sorted(blocks), bad)), transitions=len(fns) + 1, states=2, execs=1 + len(match), trivial=not blocks)
