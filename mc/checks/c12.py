"""C12: an output file's history never loses or mixes data."""
import io
from itertools import count, product
import netCDF4
import xarray
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, render
from ..observe import attempt, cells, must
from ..small import OBS
from .c11 import EXT, same

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all conversion sequences into one output up to a depth; the file's groups compared with an abstract model after every step"
RULE = "one case = one sequence of conversions (accepted, overwriting, refused, unreadable) into one file or directory, loads kept open in between; " \
       "after each step each group of the file equals the last accepted dataset; trivial = nothing accepted"
ASSUMPTIONS = ["conversions of observation and navigation files, sequential, each completes"]

DOC = {"a": dict(OBS["o2g"], ev=OBS["o2g"]["ev"][:3]), "b": dict(OBS["o3g"], ev=OBS["o3g"]["ev"][1:4]),
       "n": {"k": "n2", "ft": "G", "ev": [{"sv": "R01", "t": 0}, {"sv": "R22", "t": 7200}]},
       "m": {"k": "n3", "ev": [{"sv": "R01", "t": 0}, {"sv": "S22", "t": 900}, {"sv": "R01", "t": 0}]},
       "e": dict(OBS["o3g"], ev=[])}
SP3 = {"k": "sp3", "v": "c", "sv": ["G01"], "ev": [{"e": 0}]}
GROUP = {"a": "OBS", "b": "OBS", "e": "OBS", "n": "NAV", "m": "NAV"}
# op: document + "!" overwrite + "@" from a stream; "x" a file that cannot be read, "k" a request that is refused while reading,
# "s" an SP3 file, that is refused if the output exists
OPS = ["a", "b", "n", "m", "a!", "b!", "n!", "m!", "x!", "k!", "s"]


def spaces(tier):
    big = tier == "thorough"

    def A():
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for seq in product(OPS, repeat=n):
                if n == 3 and not big and (sum(s[0] in "xks" for s in seq) > 1 or seq[0][0] in "xks"):
                    continue
                if seq[0] == "s":
                    continue
                if n == 4 and any(s[0] in "xks" for s in seq):
                    continue
                yield {"seq": seq, "hold": True}
                if n < 3:
                    yield {"seq": seq, "hold": False}
                    yield {"seq": [s + "@" if s[0] not in "xks" else s for s in seq], "hold": True}
                    yield {"seq": seq, "hold": True, "pre": "garbage"}
        for seq in product(["e", "e!", "a!", "n", "m!"], repeat=3):
            if "e" in seq or "e!" in seq:
                yield {"seq": seq, "hold": False}
    yield ("one file", A())

    def B():  # into a directory: names of the inputs
        names = ["s.18o:a", "s.18n:n", "s.18o.gz:a", "s.rnx:b", "d/s.18o:b", "s.18N:m"]
        for n in (1, 2, 3):
            for seq in product(names, repeat=n):
                for ow in (0, 1) if n < 3 else (len(set(seq)) % 2,):
                    yield {"dir": seq, "ow": ow}
    yield ("one directory", B())


SERIAL = count()


def check_file(ctx, F, model, held, what, deep=True):
    import georinex as gr
    if not model:
        return
    if deep:  # groups are looked at in a copy: opening one file in several ways in one process crashes the netCDF library
        P = ctx.path(f"probe/{next(SERIAL)}.nc")
        P.parent.mkdir(exist_ok=True)
        P.write_bytes(F.read_bytes())
        for g, ds in model.items():
            with must(xarray.open_dataset, P, group=g, _what=f"{what}: opening group {g}") as x:
                same(ds, x, f"{what}: group {g}", False)
        with netCDF4.Dataset(P) as x:
            extra = [g for g in x.groups if g not in model and x.groups[g].variables]
        if extra:
            raise Violation(f"{what}: the file has a group {extra}, nothing was converted into it")
    back = must(gr.load, F, _what=f"{what}: load of the output")
    got = {"OBS": back["obs"], "NAV": back["nav"]} if isinstance(back, dict) else {back.rinextype.upper(): back}
    if set(got) != set(model):
        raise Violation(f"{what}: load returns {sorted(got)}, the file should have {sorted(model)}")
    for g in got:
        same(model[g], got[g], f"{what}: load, {g}", False)
    if held is not None:
        held.append((what, dict(model), got))


def run(case, ctx):
    import georinex as gr
    ref = {}

    def write(k, name):
        import gzip
        t = render(DOC[k]).encode()
        return ctx.write(name, gzip.compress(t) if name.endswith(".gz") else t)

    def full(k):
        if k not in ref:
            ref[k] = gr.load(write(k, f"ref_{k}/{EXT[DOC[k]['k']]}"))
        return ref[k]

    if "dir" in case:
        out = ctx.path("out")
        out.mkdir()
        model = {}
        n = 0
        for i, s in enumerate(case["dir"]):
            name, k = s.split(":")
            fn = write(k, name)
            want = fn.name + ".nc"
            before = (out / want).read_bytes() if want in model else None
            ds, e = attempt(gr.load, fn, out, overwrite=bool(case["ow"]))
            what = f"step {i + 1} ({s}, overwrite={case['ow']})"
            m = model.setdefault(want, {})
            if GROUP[k] in m and not case["ow"]:
                if not isinstance(e, ValueError):
                    raise Violation(f"{what}: should be refused with ValueError, got {e!r}")
                if (out / want).read_bytes() != before:
                    raise Violation(f"{what}: refused, but the file changed")
            else:
                if e is not None:
                    raise Violation(f"{what}: raised {type(e).__name__}: {e}")
                m[GROUP[k]] = ds
                n += 1
            if sorted(p.name for p in out.iterdir()) != sorted(model):
                raise Violation(f"{what}: the directory has {sorted(p.name for p in out.iterdir())}, should have {sorted(model)}")
            for w, m in model.items():
                if i + 1 == len(case["dir"]):
                    check_file(ctx, out / w, m, None, what)
        return Obs(digest([(w, sorted(m)) for w, m in sorted(model.items())]), transitions=len(case["dir"]), states=len(case["dir"]) + 1, execs=2 * len(case["dir"]), trivial=not n)

    F = ctx.path("out.nc")
    model, held = {}, [] if case["hold"] else None
    if case.get("pre") == "garbage":
        F.write_bytes(b"not NetCDF")
    junk = ctx.write("junk.18o", "this is no RINEX file\n" * 3)
    n = 0
    for i, s in enumerate(case["seq"]):
        k, ow = s[0], "!" in s
        what = f"step {i + 1} of {' '.join(case['seq'])}"
        before = F.read_bytes() if F.is_file() else None
        if k == "x":
            ds, e = attempt(gr.load, junk, F, overwrite=ow)
            ok = False
        elif k == "s":
            if before is None:  # it would create it
                continue
            ds, e = attempt(gr.load, ctx.write("orbit.sp3", render(SP3)), F)
            ok = False
            if not isinstance(e, ValueError):
                raise Violation(f"{what}: an SP3 file into an existing output should be refused with ValueError, got {'no exception' if e is None else repr(e)}")
        elif k == "k":
            ds, e = attempt(gr.load, write("a", "k.18o"), F, overwrite=ow, interval=-5)
            ok = False
        else:
            fn = write(k, f"{i}/{EXT[DOC[k]['k']]}")
            src = io.StringIO(fn.read_text()) if "@" in s else fn
            ok = ow or not (GROUP[k] in model) and (model or before is None)
            ds, e = attempt(gr.load, src, F, overwrite=ow)
            if model and not ok and not isinstance(e, ValueError):
                raise Violation(f"{what}: should be refused with ValueError, got {'no exception' if e is None else repr(e)}")
        if ok:
            if e is not None:
                raise Violation(f"{what}: raised {type(e).__name__}: {e}")
            same(full(k), ds.drop_attrs() .assign_attrs(full(k).attrs) if "@" in s else ds, f"{what}: returned dataset", False)
            model[GROUP[k]] = ds
            n += 1
        elif k in "xks" and e is None:
            raise Violation(f"{what}: should be refused")
        elif e is not None and (F.read_bytes() if F.is_file() else None) != before:
            raise Violation(f"{what}: refused, but the output changed")
        elif e is None:  # something that is no NetCDF file was replaced
            model[GROUP[k]] = ds
        check_file(ctx, F, model, held, what, i + 1 == len(case["seq"]))  # the shorter sequences are cases of their own
    for what, m, got in held or []:  # what was loaded on the way is as it was
        for g in got:
            same(m[g], got[g], f"dataset loaded after {what}, at the end", False)
    left = [p.name for p in F.parent.iterdir() if p.is_file() and p.name not in ("out.nc", "junk.18o", "k.18o", "orbit.sp3")]
    if left:
        raise Violation(f"files left behind: {left}")
    return Obs(digest([(g, case["seq"]) for g in sorted(model)]), transitions=len(case["seq"]), states=len(case["seq"]) + 1, execs=2 * len(case["seq"]), trivial=not n)
