"""C05: SP3 orbits load exactly as written, per satellite."""
from itertools import product, permutations, combinations
import numpy as np
from ..core import Obs, Violation, digest
from ..docs import render, sp3_cells
from ..observe import diff, must, times_ns, tstr

ID = "C05"
LEVEL = "model_checking"
RULE = "one case = one history of SP3 epochs; reference reader stepped record by record, the rendered file loaded by " \
       "georinex.load and every labelled cell compared; trivial = no record"
ASSUMPTIONS = ["satellite labels are compared by system and number (1, G1 and G01 are the same GPS satellite)",
               "numpy.empty is replaced by one that returns fixed implausible contents, as its specification allows"]


def canon(s):
    s = str(s).strip()
    return f"{s[0] if s[0].isalpha() else 'G'}{int(s[1:] if s[0].isalpha() else s):02d}"


def cells_sp3(ds):
    t = times_ns(ds.time)
    sv = [canon(s) for s in np.atleast_1d(ds.sv.values)]
    if len(set(t)) != len(t) or len(set(sv)) != len(sv):
        raise Violation("repeated epochs or satellites")
    out = {}
    for nm, da in (("position", "xyz"), ("velocity", "xyz"), ("clock", None), ("dclock", None)):
        if nm not in ds:
            continue
        if da:
            if sorted(np.atleast_1d(ds.ECEF.values).tolist()) != ["x", "y", "z"]:
                raise Violation("ECEF coordinate")
            for c in da:
                a = ds[nm].sel(ECEF=c).transpose("time", "sv").values
                out[("v" if nm == "velocity" else "") + c] = a
        else:
            out[nm] = ds[nm].transpose("time", "sv").values
    return {k: {(t[i], sv[j]): float(a[i, j]) for i, j in zip(*np.nonzero(~np.isnan(a)))} for k, a in out.items()}, t, sv


def check_sp3(ds, doc, what="load"):
    got, t, sv = cells_sp3(ds)
    exp = sp3_cells(doc)
    alltimes = {k[0] for v in exp.values() for k in v}
    for x in t:
        if x not in alltimes and all(e.get("s", doc["sv"]) for e in doc["ev"]):
            raise Violation(f"{what}: epoch {tstr(x)} is not in the file")
    for s in sv:
        if s not in doc["sv"]:
            raise Violation(f"{what}: satellite {s} is not in the file")
    diff(got, exp, what)
    return got


def ep(n, **kw):
    return [dict({"e": 900 * i}, **kw) for i in range(n)]


def spaces(tier):
    big = tier == "thorough"

    def A():  # which satellites have a record at which epoch: every subset, every epoch
        svs = ["G01", "G07", "R03"]
        subs = [list(c) for n in range(0, 4) for c in combinations(svs, n)]
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for ss in product(subs if n < 3 or big else subs[1:], repeat=n):
                if not any(ss):
                    continue
                for vel in (False, True) if n < 3 or big else (len(ss[0]) % 2 == 0,):
                    yield {"k": "sp3", "sv": svs, "vel": vel, "ev": [{"e": 900 * i, "s": s} for i, s in enumerate(ss)]}

    def B():  # which satellites have a velocity record
        svs = ["G01", "E07", "R03"]
        subs = [list(c) for n in range(0, 4) for c in combinations(svs, n)]
        for n in (1, 2):
            for vs in product(subs, repeat=n):
                for s in (svs, svs[:2], svs[1:]):
                    yield {"k": "sp3", "sv": svs, "vel": True, "ev": [{"e": 900 * i, "s": s, "vs": [x for x in v if x in s]} for i, v in enumerate(vs)]}

    def C():  # order of records within an epoch
        svs = ["G02", "G01", "R07", "E03"]
        for p, q in product(permutations(svs), repeat=2):
            if not big and q not in (tuple(svs), p, p[::-1]):
                continue
            yield {"k": "sp3", "sv": list(svs), "ev": [{"e": 0, "s": list(p)}, {"e": 900, "s": list(q)}]}
            yield {"k": "sp3", "sv": list(p), "vel": True, "ev": [{"e": 0, "s": list(q)}, {"e": 900, "s": list(q)[1:]}]}

    def D():  # number of satellites: header continuation at 17, 34, ...
        allsv = [f"{s}{i:02d}" for s in "GREC" for i in range(1, 37)]
        for n in range(1, 131):
            for v in "acd":
                if v in "ac" and n > 85:
                    continue
                if v == "a" and n > 36:
                    continue
                for vel in (False, True):
                    d = {"k": "sp3", "v": v, "sv": allsv[:n], "vel": vel, "ev": ep(2)}
                    if n > 2:
                        d["ev"][1] = {"e": 900, "s": allsv[1:n]}
                    if v == "a":
                        yield dict(d, sp_num=True, blankG=True)
                    yield d
                    if n < 20:
                        yield dict(d, sp_num=True)

    def E():  # line forms
        for v, eol, last, eof, trim, sd, e_p, nc, vel in product("acd", ("n", "rn"), (True, False), (True, False), (0, 1), (0, 1), (0, 1), (4, 0, 7), (0, 1)):
            d = {"k": "sp3", "v": v, "eol": eol, "last_eol": last, "eof": eof, "sd": sd, "ncom": nc if v == "d" else 4,
                 "sv": ["G01", "G12"], "vel": bool(vel), "ev": [dict(x, ep=e_p) for x in ep(2)]}
            yield d

    def F():  # many epochs; Nepoch in the header wrong; bad/absent values
        for n in (1, 2, 3, 5, 10, 24, 96, 97):
            for k in (-1, 0, 1):
                yield {"k": "sp3", "nep": max(n + k, 0), "sv": ["G01", "R02"], "vel": bool(k), "ev": [{"e": 900 * i, "s": ["G01", "R02"][i % 3 == 1:]} for i in range(n)]}
        for p in ("0", "v0", "0v", {"G01": "0", "*": "v"}, {"G01": "vvv0", "*": "v"}):
            for n in (1, 2):
                yield {"k": "sp3", "sv": ["G01", "R02"], "ev": ep(n, p=p)}
                yield {"k": "sp3", "sv": ["G01", "R02"], "vel": True, "ev": ep(n, p=p)}

    def G():  # each field has each special value; fields, epochs and satellites have equal values
        for v in (0.0, 1e-6, -1e-6, 1.0, 999999.999999, -99999.999999):
            for k in range(8):
                for e in (0, 1):
                    ev = ep(2)
                    ev[e]["val"] = {"G12": [None] * k + [v] + [None] * (7 - k)}
                    yield {"k": "sp3", "sv": ["G01", "G12"], "vel": True, "ev": ev}
                    if k < 4:
                        yield {"k": "sp3", "sv": ["G12", "G01"], "vel": False, "ev": ev}
            for vel in (False, True):
                yield {"k": "sp3", "sv": ["G01", "G12", "R03"], "vel": vel, "ev": ep(3, val={s: [v] * 8 for s in ("G01", "G12", "R03")})}
        P = [1000.5, 2000.5, -3000.5, 4.25, 1.5, -2.5, 3.5, 5.25]
        for same in product((0, 1), repeat=8):  # which fields repeat those of the epoch before
            yield {"k": "sp3", "sv": ["G01", "G12"], "vel": True, "ev": [{"e": 0, "val": {"G01": P, "G12": P}},
                   {"e": 900, "val": {"G01": [p if s else None for p, s in zip(P, same)], "G12": [None if s else p for p, s in zip(P, same)]}}]}

    return [("values", G()), ("missing satellites", A()), ("missing velocities", B()), ("record orders", C()), ("satellite counts", D()),
            ("line forms", E()), ("epochs and values", F())]


def run(case, ctx):
    import georinex as gr
    txt = render(case)
    fn = ctx.write("doc.sp3", txt)
    ds = must(gr.load, fn)
    try:
        got = check_sp3(ds, case)
    except Violation as e:
        e.files["sp3"] = txt
        raise
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in got.items())), transitions=sum(len(e.get("s", case["sv"])) for e in case["ev"]),
               states=len(case["ev"]) + 1, trivial=not any(got.values()))
