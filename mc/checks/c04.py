"""C04: RINEX 3 navigation messages load exactly as written."""
from itertools import product, permutations
from ..core import Obs, Violation, digest
from ..docs import F3, hl, nav_cells, nav_rec_fields, render
from ..observe import cells, must
from .c03 import check_nav

ID = "C04"
LEVEL = "model_checking"
RULE = "one case = one sequence of ephemeris records of a RINEX 3 navigation file; reference reader stepped record by " \
       "record, the rendered file loaded by georinex.load and every labelled cell compared; trivial = no parameter"
ASSUMPTIONS = ["parameter values are drawn from a finite alphabet", "spare fields are not parameters",
               "an empty interior field may read as zero or NaN"]
NF = {"G": [28, 29, 30, 31], "E": [27, 28, 29, 31], "C": [27, 28, 29, 30, 31], "J": [28, 29, 30, 31], "R": [15], "S": [15], "I": [28, 31]}
IONO = [hl("GPSA   0.1118E-07  0.2235E-07 -0.5960E-07 -0.1192E-06", "IONOSPHERIC CORR"),
        hl("GPSB   0.1167E+06  0.1802E+06 -0.1311E+06 -0.4588E+06", "IONOSPHERIC CORR")]
HDRS = [None, [], [hl("G01 2018 07 29 00 00 00", "COMMENT")] * 2, IONO,
        [hl("GAL    0.1118E-07  0.2235E-07 -0.5960E-07", "IONOSPHERIC CORR"), hl("    18", "LEAP SECONDS")],
        [hl("GPUT  0.0000000000E+00 0.000000000E+00 233472 2012", "TIME SYSTEM CORR"), hl("    18    18  1929     7", "LEAP SECONDS")]]
ALLSYS = "GRECJSI"


def spaces(tier):
    big = tier == "thorough"

    def A():  # every sequence of records over satellites x times, equal ones included
        alpha = [("G01", 0), ("G01", 7200), ("R05", 0), ("E11", 600), ("G02", 0)]
        for n in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
            for ps in product(alpha, repeat=n):
                if n == 4 and not big and len(set(ps)) == 4 and list(ps) != sorted(ps)[::-1]:
                    continue
                yield {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in ps]}

    def B():  # every pair of systems and layouts, both orders
        lay = [(s, nf) for s in ALLSYS for nf in NF[s]]
        for a, b in product(lay, repeat=2):
            ev = [{"sv": f"{a[0]}03", "t": 0, "nf": a[1]}, {"sv": f"{b[0]}{'03' if a[0] != b[0] else '04'}", "t": 600, "nf": b[1]}]
            for pad in (0, 1):
                if pad and (("E", 27) in (a, b) or ("C", 27) in (a, b) or ("C", 28) in (a, b)):
                    continue
                yield {"k": "n3", "ev": [dict(e, pad=pad) for e in ev]}
            if a[0] == b[0]:  # layouts changing between records of the same satellite
                yield {"k": "n3", "ev": [dict(ev[0]), dict(ev[1], sv=f"{a[0]}03")]}
                yield {"k": "n3", "ev": [dict(ev[0]), dict(ev[1], sv=f"{a[0]}03", t=0)]}

    def C():  # all orders of one record of each system, file systems
        for p in permutations("GRECJSI", 3 if not big else 4):
            yield {"k": "n3", "ev": [{"sv": f"{s}{i + 1:02d}", "t": 600 * (i % 2)} for i, s in enumerate(p)]}
        for s in ALLSYS:
            for n in range(1, 64, 1 if big else 2):
                for spn in (False, True):
                    yield {"k": "n3", "sys": s, "sp_num": spn, "ev": [{"sv": f"{s}{n:02d}", "t": 0}, {"sv": f"{s}{n % 63 + 1:02d}", "t": 60}]}

    def D():  # duplicates
        for s in ALLSYS:
            for n in range(1, 6):
                for k in range(0, 3):
                    ev = [{"sv": f"{s}07", "t": 0}] * n + [{"sv": f"{s}07", "t": 600}] * k
                    yield {"k": "n3", "ev": ev}
                    yield {"k": "n3", "ev": [dict(e, desc=1) for e in ev]}
                    yield {"k": "n3", "ev": [dict(e, desc=i % 2) for i, e in enumerate(ev)]}
                    yield {"k": "n3", "ev": ev[::-1]}
                    yield {"k": "n3", "ev": ev[::2] + ev[1::2] + [{"sv": "G09", "t": 600}]}
        for a, b in product(("G07", "R07", "S07", "E07"), repeat=2):
            for seq in product((0, 1), repeat=4):
                yield {"k": "n3", "ev": [{"sv": (a, b)[i], "t": 0 if j < 3 else 60} for j, i in enumerate(seq)]}

    def E():  # line forms, headers
        seqs = [["G01"], ["E01", "R02"], ["C05", "S20", "J01", "I02"]]
        for sv, rs, D, eol, last, h, ver in product(seqs, (0, 1), (0, 1, "e", "d"), ("n", "rn"), (0, 1), range(len(HDRS)),
                                                    ("3.00", "3.01", "3.02", "3.03", "3.04")):
            d = {"k": "n3", "ver": ver, "eol": eol, "last_eol": bool(last), "ev": [{"sv": s, "t": 0, "rs": rs, "D": D if isinstance(D, str) else bool(D)} for s in sv]}
            if HDRS[h] is not None:
                d["hdr"] = HDRS[h]
            yield d

    def F():  # value forms and blanks in every field
        for s in ALLSYS:
            n = len(nav_rec_fields({"k": "n3"}, {"sv": s + "01"}))
            for k in range(n):
                for v in (0.0, 1e-99, -9.876543210987e98, ".123456789012E+05", "-.123456789012E-05"):
                    yield {"k": "n3", "ev": [{"sv": s + "03", "t": 0, "v": {str(k): v}}, {"sv": s + "01", "t": 0}]}
                if 0 < k < n - 1:
                    yield {"k": "n3", "ev": [{"sv": s + "03", "t": 0, "blank": [k]}, {"sv": s + "01", "t": 0}]}

    def H():  # blank fields anywhere, lines without trailing blanks, further lines
        for s in ALLSYS:
            for nf in NF[s]:
                short = s == "C" and nf < 29
                ends = [k for k in ([2, 6, 10, 14] if s in "RS" else [2, 6, 10, 14, 18] + {"C27": [20, 24, 26], "C28": [25, 27], "E27": [21, 25, 26]}.get(s + str(nf), [22, 26, nf - 1])) if k < nf]
                blanks = [[k] for k in range(nf)] + [[a, b] for i, a in enumerate(ends) for b in ends[i + 1:] if a != b]
                blanks += [list(range(e - w + 1, e + 1)) for e in ends for w in (2, 3) if e - w + 1 not in ends]
                if nf == NF[s][0] or big:
                    blanks += [[e for i, e in enumerate(ends) if m >> i & 1] for m in range(1, 1 << len(ends)) if big or bin(m).count("1") > len(ends) - 3]
                for b, rs in product(blanks, (0, 1, 2)):
                    if short and {19, 20, 21} & set(b) or s == "E" and nf == 27 and rs == 2 or short and rs == 2:
                        continue
                    if s == "C" and {21, 22} <= set(b):  # looks like the layout without spare field before the week
                        continue
                    if len(b) == 1 and nf != NF[s][0] and not big and b[0] % 4 != 2 and b[0] < nf - 2:
                        continue
                    ev = [{"sv": s + "03", "t": 0, "blank": b, "nf": nf, "rs": rs == 1, "pad": rs == 2}, {"sv": s + "01", "t": 0, "nf": nf}]
                    yield {"k": "n3", "ev": ev}
                    if rs == 1:
                        yield {"k": "n3", "ev": [dict(ev[1], sv=s + "03"), dict(ev[0], t=600), {"sv": "G02", "t": 0}]}
        for ver in ("3.04", "3.05"):
            for svs in (["R01"], ["R01", "R02"], ["G01", "R01", "E01"], ["R01", "S20", "R01"]):
                for x in product((0, 1), repeat=len(svs)):
                    ev = [{"sv": s, "t": 900 * i, "g5": y if s[0] == "R" else 0} for i, (s, y) in enumerate(zip(svs, x))]
                    yield {"k": "n3", "ver": ver, "ev": ev}
                    yield {"k": "n3", "ver": ver, "ev": [dict(e, rs=1, blank=[14] if e["sv"][0] == "R" else []) for e in ev]}

    def G():  # long files
        for svs, nt in ((["G01", "R01", "E01", "C01", "J01", "S20", "I01"], 6), (["G%02d" % i for i in range(1, 33)], 2),
                        (["G01", "R02"], 40), (["R%02d" % i for i in range(1, 25)], 4), (["E%02d" % i for i in range(1, 13)] + ["G%02d" % i for i in range(1, 13)], 3)):
            ps = [(s, 600 * t) for t in range(nt) for s in svs]
            for order in (ps, ps[::-1], sorted(ps), ps + ps[::3], ps + ps[::-1]):
                yield {"k": "n3", "ev": [{"sv": s, "t": t} for i, (s, t) in enumerate(order) if (7 * i) % 11]}

    return [("record sequences", A()), ("layout pairs", B()), ("systems", C()), ("duplicates", D()), ("line forms", E()),
            ("values", F()), ("blank fields", H()), ("long files", G())]


ALLNAMES = {f for v in F3.values() for f in v} - {"-"}


def run(case, ctx):
    import georinex as gr
    txt = render(case)
    fn = ctx.write("doc.rnx", txt)
    exp, rec = nav_cells(case)
    ds = must(gr.load, fn)
    # an empty field may be zero or NaN
    i = -1
    for r in case["ev"]:
        if "j" in r:
            continue
        i += 1
        names = nav_rec_fields(case, r)
        opt = [names[k] for k in r.get("blank", [])]
        if r["sv"][0] in "GJ" and r.get("nf") == 28:
            opt.append("FitIntvl")
        for p in opt:
            if p in ds and p != "-":
                t, name = rec[i]
                v = cells(ds[[p]])[p].get((t, name))
                exp.setdefault(p, {}).pop((t, name), None)
                if v == 0:
                    exp[p][t, name] = 0.0
    try:
        check_nav(ds, exp, rec, ALLNAMES)
    except Violation as e:
        e.files["nav"] = txt
        raise
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(case["ev"]),
               states=len(case["ev"]) + 1, trivial=not exp)
