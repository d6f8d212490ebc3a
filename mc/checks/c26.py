"""C26: results do not depend on hash or iteration order."""
import builtins
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from itertools import combinations, permutations, product
from pathlib import Path
import numpy as np
from ..core import REPO, ROOT, Obs, Violation, digest
from ..docs import NOINT, DEFHDR, nav_cells, obs_cells, render
from ..observe import attempt, cells, coords_of, diff, norm_attr
from ..small import OBS, TYPES2, TYPES3, dtypes, eps, tl

ID = "C26"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of set iteration orders (every permutation, imposed on the sets of the real code and of the caller), and of hash seeds until every relative order of three elements of the sets has occurred in a process of its own"
RULE = "one case = one file, options and iteration order, or one hash seed with all files and options: labelled data, satellites, epochs, attributes and the file written equal those of the reference order; trivial = a single order"
ASSUMPTIONS = ["the order of set literals and comprehensions inside the code can only be varied by the hash seed", "order of variables and of labels along a dimension is not data"]
CHUNK = 26

S5 = [["G01", "R02", "E03"], ["R02", "C05", "J01"], ["E03", "S20", "G04"], ["C05", "R02", "G01"]]
ALL3 = dict(TYPES3, C=["C2I", "L2I"], J=["C1C", "S1C", "L1C"], S=["C1C"])
N3EV = [{"sv": s, "t": t} for s, t in [("G01", 0), ("R02", 0), ("E03", 900), ("G01", 7200), ("G01", 0), ("S20", 900), ("G04", 0), ("C05", 7200), ("R02", 0), ("E03", 900), ("J01", 0), ("I03", 0)]]
FILES = {
    "o2m": dict(OBS["o2m"], hdr=NOINT, ev=eps([0, 30, 45, 90], S5, ["b", "v.l", "sb", "N.v"])),
    "o2g": OBS["o2g"],
    "o2last": dict(OBS["o2m"], hdr=NOINT, ev=eps([0, 30, 60, 600], [["G01", "R02", "E03"], ["G01"], ["G01", "R02"], ["E03", "G04"]], ["b", "b", "v", "l"])),
    "o3m": {"k": "o3", "sys": "M", "types": ALL3, "hdr": NOINT, "ev": eps([0, 30, 45, 90], S5, ["b", "v.l", "sb", "N.v"])},
    "o3s": dict(OBS["o3m"], ev=OBS["o3m"]["ev"][:3]),
    "n3": {"k": "n3", "ev": N3EV},
    "n3d": {"k": "n3", "ev": [N3EV[i] for i in (0, 4, 1, 8, 3)]},
    "n3s": {"k": "n3", "ev": N3EV[:3] + N3EV[6:7]},
    "n2": {"k": "n2", "ft": "N", "ev": [{"sv": s, "t": t} for s, t in [("G01", 0), ("G12", 0), ("G04", 900), ("G01", 7200), ("G31", 7200)]]},
    "n2r": {"k": "n2", "ft": "G", "ev": [{"sv": s, "t": t} for s, t in [("R01", 0), ("R12", 0), ("R04", 900)]]},
    "sp3": {"k": "sp3", "v": "c", "sv": ["G01", "R02", "E03", "C05"], "ev": [{"e": 0}, {"e": 900, "s": ["E03", "G01"]}]},
}
EXT = {"o": ".18o", "n2": ".18n", "n3": ".rnx", "sp": ".sp3"}
OPTS = [{}, {"use": ["R", "G"]}, {"use": ["E", "C", "G", "S"]}, {"meas": ["L", "C"]}, {"ind": 1}, {"w": [10, 60]}, {"interval": 40}, {"fast": False}, {"use": ["G", "E", "R"], "meas": ["S", "C1"], "ind": 1}, {"use": ["J", "C", "S"], "w": [0, 900]}, {"out": 1}, {"out": 1, "use": ["S", "R", "E"]}]


def applies(f, o):
    if f[0] == "o":
        return True
    return not set(o) - ({"w", "out", "use"} if f[:2] == "n3" else {"w", "out"} if f[0] == "n" else {"out"})


def normal(ds):
    """labelled data, in a canonical form"""
    if set(ds.dims) - {"time", "sv"}:
        return [sorted((v, str(ds[v].dims), [str(x) for x in np.asarray(ds[v].sortby([d for d in ds[v].dims if d != "ECEF"]).values).ravel().tolist()]) for v in ds.variables), attrs(ds)]
    t, sv = coords_of(ds)
    return [sorted(t), sorted(sv), sorted((v, sorted([k[0], k[1], repr(x)] for k, x in c.items())) for v, c in cells(ds, ignore=lambda v: False).items()), attrs(ds)]


def attrs(ds):
    return sorted((str(k), repr(norm_attr(v))) for k, v in ds.attrs.items())


def execute(f, o, base, useset=None, n=[0]):
    """-> canonical result of one load on the real code"""
    import georinex as gr
    d = FILES[f]
    p = Path(base) / ("f" + EXT[f[0] if f[0] == "o" else f[:2]])
    if not p.exists() or p.read_text() != render(d):
        p.write_text(render(d))
    a = {}
    if "use" in o:
        a["use"] = set(o["use"]) if useset is None else useset(o["use"])
    if "meas" in o:
        a["meas"] = list(o["meas"])
    if o.get("ind"):
        a["useindicators"] = True
    if "w" in o:
        a["tlim"] = tl(d, *o["w"])
    if "interval" in o:
        a["interval"] = o["interval"]
    if "fast" in o:
        a["fast"] = o["fast"]
    out = None
    if o.get("out"):
        n[0] += 1
        out = a["out"] = Path(base) / f"out{n[0]}.nc"
    ds, e = attempt(gr.load, p, **a)
    if e is not None:
        return ["raised", type(e).__name__]
    r = normal(ds)
    if out is not None:
        if f != "sp3":
            r.append(normal(gr.load(out)))
        else:
            import xarray
            r.append(normal(xarray.load_dataset(out)))
    return r


JOBS = [(f, i) for f in FILES for i, o in enumerate(OPTS) if applies(f, o)]


def batch(base):
    """all files and options (in a process with its own hash seed)"""
    return {f"{f}/{i}": execute(f, OPTS[i], base) for f, i in JOBS}


# ------------------------------------------------ which hash seeds
SETS = [list("CEGJRS"), sorted({x["sv"] for x in N3EV}), sorted({s for x in S5 for s in x}), ["G01", "G04", "G12", "G31"], ["R01", "R04", "R12"], ["CEGJRSI"[i] for i in (2, 1, 4)]]
PROBE = "import sys,json;print(json.dumps([list(set(x)) for x in json.loads(sys.argv[1])]))"
SEEDS, COVER = [], (0, 0)


def order_of(seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    return json.loads(subprocess.run([sys.executable, "-S", "-B", "-c", PROBE, json.dumps(SETS)], env=env, capture_output=True, text=True).stdout)


def prepare(tier):
    global SEEDS, COVER
    with ThreadPoolExecutor(8) as ex:
        orders = list(ex.map(order_of, range(1, 161 if tier == "quick" else 1001)))
    cov = [{(i,) + t for i, x in enumerate(o) for t in combinations(x, 3)} for o in orders]
    want = set().union(*cov)
    total = sum(len(list(permutations(s, 3))) for s in SETS)
    have, sel = set(), []
    while have != want and len(sel) < (200 if tier != "quick" else 48):
        k = max(range(len(cov)), key=lambda j: len(cov[j] - have))
        sel.append(k + 1)
        have |= cov[k]
    SEEDS, COVER = sel, (len(have), total)


def spaces(tier):
    big = tier == "thorough"

    seeds = [{"seed": s, "cover": list(COVER)} for s in SEEDS]

    def A():  # a hash seed takes long: spread them over the chunks
        for n, c in enumerate(B()):
            if n % 25 == 0 and seeds:
                yield seeds.pop()
            yield c
        yield from seeds

    def B():  # order of the caller's set
        for f in FILES:
            for i, o in enumerate(OPTS):
                if "use" in o and applies(f, o):
                    for p in permutations(o["use"]):
                        yield {"f": f, "o": i, "use": list(p)}
        for f in ("o2m", "o3m", "n3") + (("o2last", "o3s", "n3d") if big else ()):
            for n in (5, 6) if big else (4, 5):
                for p in permutations("GREJCS"[:n]):
                    for o in ({}, {"meas": ["L", "C"], "ind": 1} if f[0] == "o" else {"w": [0, 900]}):
                        if n == 5 and not big and (o or f != "o2m" and p > p[::-1]):
                            continue
                        yield {"f": f, "opt": dict(o, use=list(p)), "use": list(p)}
    yield ("hash seeds and selection orders", A())

    def C():  # order of the sets made inside the code
        for f, i in JOBS:
            for k in range(120 if big else 24 if f[:2] == "n3" else 6):
                yield {"f": f, "o": i, "rank": k}
        for k in range(0, 5040, 1 if big else 42):
            yield {"f": "n3", "o": 0, "rank": k}
    yield ("internal orders", C())


def nth_perm(k, n):
    x, out = list(range(n)), []
    for i in range(n, 0, -1):
        out.append(x.pop(k % i))
        k //= i
    return out


class Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.set)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.set)


RANK = [0]


class Ordered(builtins.set, metaclass=Meta):
    """a set that is iterated in the order of the case"""

    def __iter__(self):
        x = sorted(builtins.set.__iter__(self), key=repr)
        return iter([x[i] for i in nth_perm(RANK[0], len(x))])


def in_order(seq):
    class Given(builtins.set):
        def __iter__(self):
            return iter([x for x in seq if x in self])
    return Given(seq)


REF = {}


def reference(f, o, ctx):
    k = f + json.dumps({x: sorted(v) if x == "use" else v for x, v in o.items()}, sort_keys=True)
    if k not in REF:
        p = ctx.path("ref")
        p.mkdir()
        REF[k] = execute(f, dict(o, use=sorted(o["use"])) if "use" in o else o, p, useset=lambda u: in_order(sorted(u)))
        d = FILES[f]
        if REF[k][0] != "raised" and f != "sp3" and not o.get("ind"):
            r = {"use": o.get("use"), "tlim": tl(d, *o["w"]) if "w" in o else None}
            if f[0] == "o":
                exp = obs_cells(d, meas=o.get("meas"), interval=o["interval"] * 10**9 if "interval" in o else None, **r)[0]
            else:
                exp = nav_cells(d, **r)[0]
            got = {v: {(a, b): float(x) for a, b, x in c} for v, c in REF[k][2]}
            if f[0] == "n":
                got = {v: c for v, c in got.items() if v in exp}
            diff(got, exp, f"load({f}, {o})")
    return REF[k]


def compare(got, ref, what):
    if got != ref:
        for a, b in zip(got, ref):
            if a != b:
                x = [v for v in (a if isinstance(a, list) else [a]) if not isinstance(b, list) or v not in b][:3]
                y = [v for v in (b if isinstance(b, list) else [b]) if not isinstance(a, list) or v not in a][:3]
                raise Violation(f"{what}: {str(x)[:300]} instead of {str(y)[:300]}")
        raise Violation(f"{what}: {str(got)[:200]} instead of {str(ref)[:200]}")


def run(case, ctx):
    if "seed" in case:
        env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), MC_BASE=ctx.base, MC_REPO=str(REPO))
        code = "import json,os\nfrom mc import core\ncore.import_target()\nfrom mc.checks import c26\nwith core.quiet():\n    r=c26.batch(os.environ['MC_BASE'])\nprint(json.dumps(r))"
        p = subprocess.run([sys.executable, "-B", "-c", code], env=env, cwd=ROOT, capture_output=True, text=True, timeout=110)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        got = json.loads(p.stdout)
        for f, i in JOBS:
            compare(got[f"{f}/{i}"], json.loads(json.dumps(reference(f, OPTS[i], ctx.sub(f"{f}{i}")))), f"load({f}, {OPTS[i]}) with PYTHONHASHSEED={case['seed']}")
        return Obs(digest(got), execs=len(JOBS), transitions=len(JOBS), states=len(JOBS))
    f = case["f"]
    o = case.get("opt") or OPTS[case["o"]]
    ref = reference(f, o, ctx)
    if "use" in case:
        got = execute(f, o, ctx.base, useset=lambda u: in_order(case["use"]))
        what = f"load({f}, {o}) with the set in order {''.join(case['use'])}"
        n = len(case["use"])
    else:
        mods = [m for k, m in sys.modules.items() if k.split(".")[0] == "georinex" and hasattr(m, "__file__") and ".tests" not in k]
        RANK[0] = case["rank"]
        old = [m.__dict__.get("set", mods) for m in mods]
        for m in mods:
            m.__dict__.setdefault("set", Ordered)
        try:
            got = execute(f, o, ctx.base)
        finally:
            for m, x in zip(mods, old):
                if x is mods:
                    del m.__dict__["set"]
        what = f"load({f}, {o}) with internal sets in order {case['rank']}"
        n = 2
    compare(got, ref, what)
    return Obs(digest((f, o, got)), transitions=n, states=n + 1, execs=1, trivial=n < 2)
