"""C03: RINEX 2 navigation messages load exactly as written."""
from itertools import product, permutations
from ..core import Obs, Violation, digest
from ..docs import F2, SYS2, hl, nav_cells, render
from ..observe import cells, coords_of, diff, must, tstr

ID = "C03"
LEVEL = "model_checking"
RULE = "one case = one sequence of ephemeris records of a RINEX 2 navigation file; reference reader stepped record by " \
       "record, the rendered file loaded by georinex.load and every labelled cell compared; trivial = no parameter"
ASSUMPTIONS = ["no satellite has two records with the same time of clock", "parameter values are drawn from a finite alphabet"]

IONO = [hl("    0.1118D-07  0.2235D-07 -0.5960D-07 -0.1192D-06", "ION ALPHA"),
        hl("    0.1167D+06  0.1802D+06 -0.1311D+06 -0.4588D+06", "ION BETA")]
HDRS = [None, [], [hl("a comment", "COMMENT")] * 2, IONO, IONO[:1] + [hl("18  7 29", "COMMENT")] + IONO[1:],
        [hl("    18", "LEAP SECONDS")]]
VALS = {"N": {"0": 0.0, "1": -1e-99, "2": 9.999999999999e99, "6": -3.141592653589}, "G": {"3": 25508.123456789, "4": -3.0, "10": -7.0},
        "E": {"0": -0.0, "26": 604800.0}}


def recs(ft, pairs, **kw):
    s = SYS2[ft]
    return [dict({"sv": f"{s}{n:02d}", "t": t}, **kw) for n, t in pairs]


def spaces(tier):
    big = tier == "thorough"

    def A():  # every sequence of up to 3 (4) records over satellites x times
        alpha = [(n, t) for n in (1, 2, 24) for t in (0, 7200, 900)]
        for ft in "NGE":
            for n in (1, 2, 3) if not big else (1, 2, 3, 4):
                for ps in permutations(alpha if n < 4 else alpha[:6], n):
                    yield {"k": "n2", "ft": ft, "ev": recs(ft, ps)}

    def B():  # how the lines are written
        seqs = [[(1, 0)], [(1, 0), (2, 0)], [(2, 7200), (1, 0), (2, 0)]]
        for ft, ps, pad, rs, D, eol, last, hdr in product("NGE", seqs, (0, 1), (0, 1), (0, 1, "e", "d"), ("n", "rn"), (0, 1),
                                                         range(len(HDRS) if big else 5)):
            if pad and rs:
                continue
            for nf in ((None, 28) if ft == "N" else (None,)):
                d = {"k": "n2", "ft": ft, "eol": eol, "last_eol": bool(last), "ev": recs(ft, ps, pad=pad, rs=rs, D=D if isinstance(D, str) else bool(D), nf=nf)}
                if HDRS[hdr] is not None:
                    d["hdr"] = HDRS[hdr]
                yield d

    def C():  # every satellite number, layouts mixed within a file, versions
        for ft in "NGE":
            for n in range(1, 100):
                yield {"k": "n2", "ft": ft, "ev": recs(ft, [(n, 0), (n % 99 + 1, 0)])}
            for ver in ("2.00", "2.01", "2.10", "2.11", "2.12"):
                yield {"k": "n2", "ft": ft, "ver": ver, "ev": recs(ft, [(1, 0), (2, 0)])}
        for nfs in product((28, 29), repeat=3):
            yield {"k": "n2", "ft": "N", "ev": [dict(r, nf=nf) for r, nf in zip(recs("N", [(1, 0), (1, 7200), (2, 0)]), nfs)]}

    def D():  # value forms in every field; blank last field
        for ft in "NGE":
            n = len(F2[ft])
            for k in range(n):
                for v in (0.0, 1e-99, -9.876543210987e98, ".123456789012E+05", "-.123456789012E-05", 12345678901.5):
                    yield {"k": "n2", "ft": ft, "ev": recs(ft, [(3, 0), (1, 0)], v={str(k): v})}
            for t in (0.5, 59.9, 30.0, 3599, 86399):
                yield {"k": "n2", "ft": ft, "ev": recs(ft, [(3, t), (1, 0)])}
        for ft in "NGE":
            for k in range(len(F2[ft])):
                ev = recs(ft, [(1, 0), (1, 7200), (2, 0)])
                ev[1]["blank"] = [k]
                ev[1]["optional_blank"] = True
                yield {"k": "n2", "ft": ft, "ev": ev}
        # blank fields anywhere, lines without trailing blanks
        for ft in "NGE":
            n = len(F2[ft])
            ends = {"N": [2, 6, 10, 14, 18, 22, 26, 28], "G": [2, 6, 10, 14], "E": [2, 6, 10, 14, 18, 21, 25, 26]}[ft]
            blanks = [[k] for k in range(n)] + [[a, b] for i, a in enumerate(ends) for b in ends[i + 1:]]
            blanks += [list(range(e - w + 1, e + 1)) for e in ends for w in (2, 3) if e - w + 1 not in ends]
            blanks += [[e for i, e in enumerate(ends) if m >> i & 1] for m in range(1, 1 << len(ends)) if big or bin(m).count("1") > len(ends) - 3]
            for b, rs, at in product(blanks, (0, 1, 2), (0, 1, 2)):
                ev = recs(ft, [(1, 0), (1, 7200), (2, 0)], **{"rs": rs == 1, "pad": rs == 2})
                ev[at].update(blank=b, optional_blank=True)
                yield {"k": "n2", "ft": ft, "ev": ev}
        for b in ([], [21], [20, 21], [25, 26]):
            for x in product((0, 1), repeat=3):
                ev = recs("E", [(1, 0), (1, 7200), (2, 0)])
                for r, y in zip(ev, x):
                    r.update({"sp2": y, "blank": b, "optional_blank": True})
                yield {"k": "n2", "ft": "E", "ev": ev}
        for i in range(3):
            ev = recs("N", [(1, 0), (1, 7200), (2, 0)], pad=1)
            ev[i]["blank"] = [28]
            ev[i]["optional_blank"] = True
            yield {"k": "n2", "ft": "N", "ev": ev}

    def E():  # long files
        for ft in "NGE":
            for nsv, nt in ((5, 12), (32, 3), (1, 60), (24, 10)):
                for order in (0, 1, 2):
                    ps = [(n, 7200 * t) for t in range(nt) for n in range(1, nsv + 1)]
                    if order == 1:
                        ps = ps[::-1]
                    if order == 2:
                        ps = sorted(ps, key=lambda p: (p[0], -p[1]))
                    ps = [p for i, p in enumerate(ps) if (i * 7) % 11]
                    yield {"k": "n2", "ft": ft, "ev": recs(ft, ps)}

    return [("record sequences", A()), ("line forms", B()), ("satellites and layouts", C()), ("values", D()), ("long files", E())]


def check_nav(ds, exp, rec, names, what="load", blank0=()):
    got = cells(ds)
    for v in got:
        if v not in names:
            raise Violation(f"{what}: parameter {v} is not one of the system's parameters")
    t, sv = coords_of(ds)
    tt, ss = {r[0] for r in rec}, {r[1] for r in rec}
    for x in t:
        if x not in tt:
            raise Violation(f"{what}: time {tstr(x)} is not in the file (or not selected)")
    for s in sv:
        if s not in ss:
            raise Violation(f"{what}: satellite {s} is not in the file (or not selected)")
    diff(got, exp, what)
    return got


def run(case, ctx):
    import georinex as gr
    txt = render(case)
    fn = ctx.write("doc.18n", txt)
    exp, rec = nav_cells(case)
    ds = must(gr.load, fn)
    try:
        check_nav(ds, exp, rec, set(F2[case["ft"]]))
    except Violation as e:
        e.files["nav"] = txt
        raise
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(case["ev"]),
               states=len(case["ev"]) + 1, trivial=not exp)
