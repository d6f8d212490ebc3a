"""C28: an interrupted or failing conversion does no damage (all crash points, torn writes and I/O errors)."""
import bz2
import ctypes
import errno
import gzip
import io
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import zipfile
from itertools import product
from pathlib import Path
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import NOINT, hl, render

ID = "C28"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection: the real conversion is executed once for every file operation it makes and every fault kind " \
            "(killed before it, write torn, operation fails once or from then on, short write, interrupt) and the state of the disk checked"
RULE = "one case = one history of conversions and one fault kind; inside it every operation that changes a file is a fault point, each one execution of the real " \
       "code in its own process; states = fault points, transitions = operations of the recorded trace, which replayed on the model of the disk gives the very " \
       "bytes found there, at every fault point; trivial = no operation"
NOTE = "Every fault point of every history is executed on the real code; the recorded traces are replayed on a model of the directory and compared " \
       "with the real one at every crash point. Faults inside reading are not enumerated."
ASSUMPTIONS = ["the process dies or an operation fails; the operating system goes on running (no power failure, no reordering of writes)",
               "one process converts at a time", "file operations are those that go through the C library's interface (checked by replaying every trace)"]
CHUNK = 1
CASE_TIMEOUT = 400

OFF, RECORD, KILL, TORN, FAIL, SHORT, RFAIL, RSHORT = range(8)
MODES = {"kill": (KILL, 0, 0), "torn": (TORN, 0, 0), "full": (FAIL, errno.ENOSPC, 1), "eio": (FAIL, errno.EIO, 0), "short": (SHORT, 0, 0)}
RMODES = {"read error": (RFAIL, errno.EIO, 0), "read errors": (RFAIL, errno.EIO, 1), "short read": (RSHORT, 0, 0)}
DOC = {"a": {"k": "o2", "sys": "G", "types": ["C1", "L1"], "hdr": NOINT, "ev": [{"e": 0, "s": ["G01", "G02"], "p": "b"}, {"e": 30, "s": ["G02"], "p": "v."}]},
       "b": {"k": "o3", "sys": "M", "types": {"G": ["C1C"], "R": ["L1C"]}, "hdr": NOINT, "ev": [{"e": 0, "s": ["R01"]}, {"e": 30, "s": ["G01", "R01"]}]},
       "n": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 0}, {"sv": "R22", "t": 7200}]},
       "m": {"k": "n3", "ev": [{"sv": "R01", "t": 0}, {"sv": "S22", "t": 900}, {"sv": "R01", "t": 0}]},
       "s": {"k": "sp3", "v": "c", "sv": ["G01"], "ev": [{"e": 0}]},
       "t": {"k": "sp3", "v": "d", "vel": True, "sv": ["G01", "R02"], "ev": [{"e": 0}, {"e": 900, "s": ["R02"]}]}}
DOC["e"] = dict(DOC["b"], ev=[])
# big enough for several chunks, so that data are written before the file is closed
DOC["B"] = {"k": "o3", "sys": "M", "types": {"G": ["C1C", "S1C"], "R": ["C1C"]}, "hdr": NOINT,
            "ev": [{"e": 30 * i, "s": [f"G{k:02d}" for k in range(1, 9)] + ["R01"], "p": "bv.b"} for i in range(40)]}
# documents of several buffers, one satellite per epoch so that every kind of line falls on an end of a buffer for some length of the header
LONG = {"a": {"k": "o2", "sys": "G", "types": ["C1", "L1", "P2"], "hdr": NOINT, "ev": [{"e": 30 * i, "s": [f"G{i % 5 + 1:02d}"], "p": "b"} for i in range(230)]},
        "b": {"k": "o3", "sys": "M", "types": {"G": ["C1C"], "R": ["C1C", "L1C"]}, "hdr": NOINT, "ev": [{"e": 30 * i, "s": ["R01" if i % 3 else "G02"], "p": "b"} for i in range(300)]},
        "n": {"k": "n2", "ft": "N", "ev": [{"sv": f"G{i % 5 + 1:02d}", "t": 7200 * i} for i in range(30)]},
        "m": {"k": "n3", "ev": [{"sv": f"{'RGE'[i % 3]}{i % 5 + 1:02d}", "t": 900 * i} for i in range(40)]},
        "t": {"k": "sp3", "v": "d", "vel": True, "sv": ["G01", "R02"], "ev": [{"e": 900 * i} for i in range(60)]}}
LONG["s"] = dict(LONG["t"], v="c", vel=False)
_lib = None


# ---------------------------------------------------------------- the interposer
def prepare(tier):
    """build the interposer and begin again with it preloaded"""
    global _lib
    so = os.environ.get("MC_FAULT_SO")
    if not so:
        d = tempfile.mkdtemp(prefix="mcfault")
        so = os.path.join(d, "fault.so")
        src = Path(__file__).parent.parent / "native" / "fault.c"
        subprocess.run(["gcc", "-O2", "-U_FORTIFY_SOURCE", "-shared", "-fPIC", "-w", "-o", so, str(src), "-ldl"], check=True)
        os.environ["MC_FAULT_SO"] = so
        os.environ["LD_PRELOAD"] = so
        sys.stdout.flush()
        os.execv(sys.executable, sys.orig_argv)
    os.environ.pop("LD_PRELOAD", None)
    os.environ.pop("MC_FAULT_SO", None)
    _lib = ctypes.CDLL(None)
    _lib.mc_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    _lib.mc_count.restype = ctypes.c_long
    shutil.rmtree(os.path.dirname(so), ignore_errors=True)
    import netCDF4  # noqa: F401  loaded once, before the processes are forked
    import xarray  # noqa: F401
    import pandas  # noqa: F401
    from xarray.backends import netCDF4_, plugins
    plugins.list_engines()


def child(fn, arm=None):
    """fn in a process of its own -> ("ok", value) | ("raised", type name) | ("signal", n), and the number of operations"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                if arm:
                    _lib.mc_arm(*arm)
                res = ("ok", fn())
            except BaseException as e:
                res = ("raised", f"{type(e).__name__}: {e}")
            n = _lib.mc_count()
            fired = _lib.mc_fired()
            _lib.mc_arm(b"", OFF, -1, 0, 0, -1)
            b = pickle.dumps((res, n, fired))
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    with open(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("signal", os.WTERMSIG(st)), 0, 1
    return pickle.loads(b)


# ---------------------------------------------------------------- the model of the disk
def trace(path):
    b = Path(path).read_bytes()
    i, ops = 0, []
    while i < len(b):
        kind = chr(b[i])
        la, lb, off, ln, ld = struct.unpack_from("=IIQQQ", b, i + 1)
        i += 33
        a, i = b[i : i + la].decode(), i + la
        c, i = b[i : i + lb].decode(), i + lb
        data, i = b[i : i + ld], i + ld
        ops.append((kind, a, c, off, ln, data))
    return ops


def apply(disk, op, half=False):
    kind, a, b, off, ln, data = op
    if kind in "ct":
        disk[a] = b""
    elif kind == "w":
        if half:
            data = data[: len(data) // 2]
        if data:
            x = disk.get(a, b"").ljust(off, b"\0")
            disk[a] = x[:off] + data + x[off + len(data):]
    elif kind == "s":
        disk[a] = disk[a][:off].ljust(off, b"\0")
    elif kind == "g":
        disk[a] = disk[a].ljust(off, b"\0")
    elif kind == "r":
        disk[b] = disk.pop(a)
    elif kind == "u":
        disk.pop(a, None)
    elif kind == "l":
        disk[b] = disk[a]


def look(d):
    return {str(p): p.read_bytes() for p in sorted(Path(d).rglob("*")) if p.is_file()}


def restore(d, disk):
    for p in Path(d).iterdir():
        shutil.rmtree(p) if p.is_dir() else p.unlink()
    for p, b in disk.items():
        Path(p).write_bytes(b)


# ---------------------------------------------------------------- the histories
def spaces(tier):
    big = tier == "thorough"
    main = [("", "a"), ("", "n"), ("", "s"), ("a", "n"), ("n", "a"), ("a", "b!"), ("an", "b!"), ("an", "m!"), ("s", "t!")]
    more = [("", "b"), ("", "m"), ("", "a!"), ("", "e"), ("n", "m!"), ("an", "s!"), ("s", "a"), ("s", "n!"), ("g", "a!"), ("g", "n"), ("g", "s!"),
            ("a", "a"), ("a", "b"), ("an", "m"), ("s", "t"), ("e", "a!"), ("a", "e!")] + ([("na", "b!")] if big else [])
    large = [("", "B"), ("B", "n"), ("a", "B!"), ("Bn", "b!"), ("nB", "m!"), ("B", "s!")]

    def A():
        for (pre, op), mode in product(main, MODES):
            if not big and (mode == "torn" and (pre, op) == ("an", "m!") or mode in ("short", "eio") and (len(pre) == 2 or op == "n")):
                continue
            yield {"pre": pre, "op": op, "mode": mode}
        for (pre, op), mode in product(more, MODES):
            if big or mode == "kill" or mode == "full" and (len(pre) == 1 or op == "b"):
                yield {"pre": pre, "op": op, "mode": mode}
    yield ("one output", A())

    def L():
        for (pre, op), mode in product(large, MODES):
            if big or mode == "kill" and (pre, op) in (("a", "B!"), ("B", "n")) or mode == "full" and (pre, op) == ("", "B"):
                yield {"pre": pre, "op": op, "mode": mode}
    yield ("large output", L())

    def D():
        for (pre, op), mode in product((("", "a"), ("a", "n"), ("an", "b!"), ("s", "t!")), MODES):
            if big or len(pre) < 2 and mode in ("kill", "full"):
                yield {"pre": pre, "op": op, "mode": mode, "dir": 1}
    yield ("output directory", D())

    def C():
        for files, pre, mode in product(("an", "bs", "axb", "axm", "asnb"), ("", "1"), MODES):
            if big or mode in ("kill", "full") and len(files) < 4 and "m" not in files and (files != "an" or not pre):
                yield {"batch": files, "pre": pre, "mode": mode}
    yield ("batch", C())


    def R():
        for (pre, op), mode in product(main + more, RMODES):
            if "g" not in pre:
                yield {"pre": pre, "op": op, "mode": mode}
    yield ("reading while converting", R())

    def S():
        for k, cont, what, mode in product("abnmst", CONT, ("load", "time", "header", "info"), RMODES):
            if what == "load" or big or k in "abnm":
                yield {"k": k, "cont": cont, "what": what, "mode": mode}
        for k, what, mode, pad in product("abnmst", ("load", "time"), ("read error", "read errors"), range(1, 6 if not big else 25)):
            if what == "load" or k in "abnm":
                yield {"k": k, "cont": "", "what": what, "mode": mode, "pad": pad}
        for what, mode in product(("load", "info"), RMODES):
            yield {"k": "an", "cont": "nc", "what": what, "mode": mode}
    yield ("reading", S())


CONT = {"": bytes, ".gz": gzip.compress, ".bz2": bz2.compress, ".zip": None, ".Z": None}
NAME = {"a": "a.18o", "b": "b.rnx", "e": "e.rnx", "n": "n.18n", "m": "m.rnx", "s": "s.sp3", "t": "t.sp3", "x": "x.18o", "B": "B.rnx"}


def text(k):
    return "this is no RINEX file\n" if k == "x" else render(DOC[k])


def snap(path):
    """what a reader finds in the output: digest of every group, or None if it cannot be read"""
    import georinex as gr
    return groups(gr.load(Path(path)))


def groups(x):
    out = {}
    for k, ds in (x.items() if isinstance(x, dict) else [("", x)]):
        ds = ds.load()
        out[k or ds.attrs.get("rinextype", "?")] = digest(
            [(n, ds[n].dims, str(ds[n].dtype), ds[n].values.tobytes() if ds[n].dtype.kind != "O" else list(ds[n].values)) for n in sorted(ds.variables)] +
            sorted((k, str(v)) for k, v in ds.attrs.items()))
    return out


def pack(b, cont):
    if cont == ".zip":
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("inner.rnx", b)
        return f.getvalue()
    if cont == ".Z":
        from ncompress import compress
        return compress(b)
    return CONT[cont](b)


def run_read(case, ctx):
    """an input that cannot be read is an error, never partial or other data"""
    import georinex as gr
    if case["cont"] == "nc":
        fn = ctx.path("x.nc")
        for k in case["k"]:
            child(lambda: bool(gr.load(ctx.write(NAME[k], text(k)), fn)))
    else:
        b = render(LONG[case["k"]])
        pad = case.get("pad", 0)
        if LONG[case["k"]]["k"] == "sp3":
            b = b.replace("*  ", ("/* " + "c" * 50 + "\n") * pad + "*  ", 1)
        else:
            b = b.replace(hl("", "END OF HEADER"), (hl("c" * 55, "COMMENT") + "\n") * pad + hl("", "END OF HEADER"), 1)
        b = b.encode()
        fn = ctx.write(NAME[case["k"]] + case["cont"], pack(b, case["cont"]))

    def act():
        if case["what"] == "load":
            return groups(gr.load(fn))
        if case["what"] == "time":
            return [str(x) for x in np.atleast_1d(gr.gettime(fn))]
        if case["what"] == "header":
            return sorted((str(k), str(v)) for k, v in gr.rinexheader(fn).items())
        return sorted((str(k), str(v)) for k, v in gr.rinexinfo(fn).items())

    prefix = ctx.base.encode() + b"/"
    mode, err, pers = MODES.get(case["mode"]) or RMODES[case["mode"]]
    full, n, _ = child(act, (prefix, mode, -1, err, pers, -1))
    fails = 0
    for i in range(n):
        rc, _, _ = child(act, (prefix, mode, i, err, pers, -1))
        at = f"{case['mode']} at {i + 1} of {n} readings by {case['what']} of {fn.name}"
        if rc[0] == "signal":
            raise Violation(f"{at}: the process dies ({rc[1]})")
        if rc[0] != "ok":
            fails += 1
            if mode == RSHORT:
                raise Violation(f"{at}: that is no error, but {rc[1]}")
        elif rc != full:
            raise Violation(f"{at}: no error is raised, but the result is not that of the whole file: {str(rc[1])[:150]} instead of {str(full[1])[:150]}")
    return Obs(digest((full[0], n, fails)), transitions=n, states=n + 1, execs=n + 1, trivial=not n)


def run(case, ctx):
    import georinex as gr
    if "k" in case:
        return run_read(case, ctx)
    src, out = ctx.path("in"), ctx.path("out")
    src.mkdir()
    out.mkdir()
    prefix = str(out).encode() + b"/"
    batch = "batch" in case
    for k in (case["batch"] if batch else case["pre"].replace("g", "") + case["op"][0]):
        (src / NAME[k]).write_text(text(k))
    F = out / "out.nc"

    def one(k, ow):
        return gr.load(src / NAME[k], out if case.get("dir") else F, overwrite=ow)

    def act():
        if batch:
            gr.batch_convert(src, "*", out)
        else:
            one(case["op"][0], "!" in case["op"])

    # ---- the state before
    if case.get("dir"):  # one output name: the inputs in turn have the name of the output
        for k in set(case["pre"] + case["op"][0]):
            (src / k).mkdir()
            (src / NAME[k]).rename(src / k / "in.x")

        def one(k, ow):
            return gr.load(src / k / "in.x", out, overwrite=ow)
        F = out / "in.x.nc"
    if batch:
        if case["pre"]:  # the first one is already converted
            k = case["batch"][0]
            child(lambda: gr.load(src / NAME[k], out))
        outputs = {k: out / (NAME[k] + ".nc") for k in case["batch"] if k != "x"}
    else:
        for k in case["pre"]:
            if k == "g":
                F.write_bytes(b"not NetCDF" * 50)
            else:
                r, _, _ = child(lambda: bool(one(k, False)))
                if r[0] != "ok":
                    raise Violation(f"conversion {k} before: {r}")
        outputs = {"": F}
    old = look(out)
    snaps = {}

    def state(p):
        """digest of the contents a reader finds"""
        if not p.is_file():
            return "absent"
        b = p.read_bytes()
        if b not in snaps:
            r, _, _ = child(lambda: snap(p))
            snaps[b] = "unreadable" if r[0] != "ok" else repr(sorted(r[1].items()))
        return snaps[b]

    before = {k: state(p) for k, p in outputs.items()}
    # ---- undisturbed
    log = ctx.path("trace")
    fd = os.open(log, os.O_CREAT | os.O_WRONLY)
    rc0, n, _ = child(act, (prefix, RECORD, -1, 0, 0, fd))
    os.close(fd)
    ops = trace(log)
    new = look(out)
    after = {k: state(p) for k, p in outputs.items()}
    if len(ops) > n or rc0[0] == "ok" and len(ops) != n:
        raise RuntimeError(f"{n} operations, {len(ops)} recorded")
    refused = rc0[0] != "ok"
    if refused and after != before:
        raise Violation(f"the conversion is refused ({rc0[1]}), but the output has changed")
    if refused and not batch and case["op"].endswith("!"):
        raise Violation(f"the conversion with overwrite=True raised {rc0[1]}")
    if not refused and (not batch and set(new) != {str(F)} or batch and set(new) != {str(p) for p in outputs.values()}):
        raise Violation(f"the conversion leaves {sorted(Path(p).name for p in new)}")
    disk = dict(old)
    for op in ops:
        apply(disk, op)
    log.unlink()
    restore(out, old)
    fd = os.open(log, os.O_CREAT | os.O_WRONLY)
    _, n2, _ = child(act, (prefix, RECORD, -1, 0, 0, fd))
    os.close(fd)
    det = trace(log) == ops  # otherwise (names with process numbers, say) traces cannot be compared
    if det and disk != new:
        raise RuntimeError("the recorded operations do not give the resulting files: " + str([(p, len(new.get(p, b"")), len(disk.get(p, b""))) for p in {**new, **disk} if new.get(p) != disk.get(p)]))
    reading = case["mode"] in RMODES
    mode, err, pers = (RMODES if reading else MODES)[case["mode"]]
    if reading:
        prefix = ctx.base.encode() + b"/"
        restore(out, old)
        n = child(act, (prefix, mode, -1, err, pers, -1))[1]
    rerun = {}
    disk = dict(old)
    seen = set()
    execs = 3
    for i in range(n):
        if reading:
            pass
        elif mode == SHORT and ops[i : i + 1] and ops[i][0] != "w":
            continue
        restore(out, old)
        rc, _, fired = child(act, (prefix, mode, i, err, pers, -1))
        execs += 1
        op = ops[i] if i < len(ops) and not reading else ("read", "")
        at = f"{case['mode']} at operation {i + 1} of {n} ({ {'c': 'create', 't': 'truncate', 'w': 'write', 's': 'resize', 'g': 'allocate', 'r': 'rename', 'u': 'remove'}.get(op[0], op[0])} {Path(op[1]).name})"
        real = look(out)
        if mode in (KILL, TORN):
            if rc != ("signal", signal.SIGKILL):
                if not det:
                    continue
                raise RuntimeError(f"{at}: not killed: {rc}")
            want = dict(disk)
            if mode == TORN and op[0] == "w":
                apply(want, op, True)
            if det and want != real:
                raise RuntimeError(f"{at}: the disk differs from the model's")
        st = {k: state(p) for k, p in outputs.items()}
        for k, s in st.items():
            if s not in (before[k], after[k]):
                what = "is lost" if s == "absent" else "cannot be read" if s == "unreadable" else "has other data than before or after the conversion"
                raise Violation(f"{at}: the output {outputs[k].name} {what}" + (" (it did not exist)" if before[k] == "absent" else ""))
        extra = sorted(Path(p).name for p in real if Path(p) not in outputs.values())
        if mode not in (KILL, TORN):
            if extra and op[0] not in "ur" and rc[0] != "signal":
                raise Violation(f"{at}: {extra} left behind")
            if rc[0] == "ok" and not batch and not refused and st != after:
                raise Violation(f"{at}: no error is raised, but nothing was converted")
            if mode in (SHORT, RSHORT) and (rc != rc0 or st != after):
                raise Violation(f"{at}: a short write is no error, but {rc}")
        # ---- again, after the cause is gone
        key = digest(sorted(real.items()))
        if key not in rerun:
            rc2, _, _ = child(act)
            execs += 1
            st2 = {k: state(p) for k, p in outputs.items()}
            ex2 = sorted(p.name for p in out.iterdir() if p not in outputs.values())
            rerun[key] = (rc2, st2, ex2)
        rc2, st2, ex2 = rerun[key]
        if st2 != after:
            raise Violation(f"{at}: the same conversion afterwards gives {rc2}, not the complete output")
        if ex2 and set(ex2) - set(extra):
            raise Violation(f"{at}: the conversion afterwards leaves {ex2}")
        seen.add(key)
        if i < len(ops) and not reading:
            apply(disk, ops[i])
    return Obs(digest((case["mode"], len(ops), sorted(before.items()), sorted(after.items()))), transitions=len(ops) if reading else sum(range(len(ops) + 1)), states=n + 1, execs=execs, trivial=not n)
