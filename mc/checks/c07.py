"""C07: selecting systems or measurements equals subsetting."""
from itertools import combinations, permutations, product
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, F3, nav_cells, render
from ..observe import must
from ..small import OBS, eps, load, obs_result, run_obs
from .c03 import check_nav
from .c04 import ALLNAMES

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of the lattice of selections over small files, real code compared with the subset of the reference model"
RULE = "one case = one file and one selection (systems in every order and container form, measurement prefixes in every order, " \
       "both); every labelled cell compared with the subset of the reference reader; trivial = empty selection"
ASSUMPTIONS = ["a selection of only absent systems in RINEX 3 observation files raises KeyError (pinned by the existing tests), so it is not selected here"]

T3 = {"G": ["C1C", "L1C", "S1C", "C2W", "L5Q"], "R": ["L1C", "C1C", "D1C"], "E": ["C1X", "L1X", "L8X", "S1X", "C7I", "D1X"],
      "C": ["L2I", "C2I"], "J": ["S1C", "L1C"], "S": ["C1C"], "I": ["C5A", "L5A", "S9A"]}
D3 = {"k": "o3", "sys": "M", "types": T3, "hdr": DEFHDR,
      "ev": eps([0, 30, 60], [["G01", "R02", "E03", "C04", "J01", "S20", "I05"], ["I05", "S20", "R02", "G04", "E03"], ["C04", "R07", "G01", "J01"]],
                ["b", {"E": "v.l", "*": "sbv"}, {"C04": ".", "*": "bNv"}])}
D3R = dict(D3, types=dict(reversed(T3.items())))
D2 = {"k": "o2", "sys": "M", "types": ["C1", "L1", "P1", "L2", "S1", "D1", "C5"], "hdr": DEFHDR,
      "ev": eps([0, 30, 60], [["G01", "R02", "E03", "S20", "C05", "J01"], ["R02", "G04", "E03"], ["E05", "R07", "G01"]],
                ["b", {"E": "v.l", "*": "sbv"}, {"E05": ".", "*": "bNv"}])}
# types without any observation in some system; one-system files
DOCS = {"o3": D3, "o3r": D3R, "o2": D2, "o3m": OBS["o3m"], "o2m": OBS["o2m"], "o3g": OBS["o3g"], "o2g": OBS["o2g"]}
FORMS = ("list", "tuple", "set", "frozenset")


def sub_perm(alpha, maxn, perm_to=3):
    for n in range(1, maxn + 1):
        for c in combinations(alpha, n):
            if n <= perm_to:
                yield from (list(p) for p in permutations(c))
            else:
                yield list(c)
                yield list(c[::-1])
                yield list(c[1:] + c[:1])


def spaces(tier):
    big = tier == "thorough"

    def A():  # systems
        for u in sub_perm("GRECJSI", 7, 3 if big else 2):
            for name in ("o3", "o3r"):
                for f in FORMS if len(u) < 3 or big else FORMS[:1]:
                    yield {"doc": DOCS[name], "use": u, "uform": f}
                if len(u) == 1:
                    yield {"doc": DOCS[name], "use": u, "uform": "str"}
        for u in sub_perm("GRESCJ", 6, 2):
            for f in FORMS if len(u) == 2 and "G" in u else FORMS[:1]:
                yield {"doc": D2, "use": u, "uform": f, "hd": 1}
            if len(u) == 1:
                yield {"doc": D2, "use": u, "uform": "str"}
        for name, sysn in product(("o3m", "o2m"), range(1)):
            for u in sub_perm("GRE", 3):
                for f in FORMS:
                    for fast in (True, False):
                        yield {"doc": DOCS[name], "use": u + ["J"], "uform": f, "fast": fast}
                        yield {"doc": DOCS[name], "use": ["C"] + u, "uform": f, "fast": fast}
        for name in ("o3g", "o2g"):
            for u in (["G"], ["G", "R"], ["R", "G"], ["E", "R", "G"]):
                for f in FORMS:
                    yield {"doc": DOCS[name], "use": u, "uform": f}
        for u in (["R"], ["E", "R"]):
            yield {"doc": DOCS["o2g"], "use": u}
    yield ("systems", A())

    def B():  # measurement prefixes
        a3 = ["C", "L", "S", "D", "C1", "L1", "L1C", "C2", "L8X", "X", "5"]
        a2 = ["C", "L", "P", "C1", "L1", "L2", "D1", "S", "X"]
        # names that are longer than, or differ in case from, the types of the file select nothing
        for m in ("L1C", "C1C", "C1 ", "L1L1", "c1", "l", "1", " C1", "CC", "C1C1C1"):
            for name in ("o2g", "o2m", "o3m", "o3g", "o3"):
                for ms in ([m], [m, "L1"], ["C", m]):
                    yield {"doc": DOCS[name], "meas": ms, "mform": "list"}
        for m in sub_perm(a3, 4 if big else 3, 3):
            if len(m) == 3 and not big and hash3(m) % 3:
                continue
            for name in ("o3m", "o3g"):
                yield {"doc": DOCS[name], "meas": m, "mform": ("list", "tuple")[len(m) % 2]}
            if len(m) == 1:
                for name in ("o3", "o3r", "o3m"):
                    yield {"doc": DOCS[name], "meas": m, "mform": "str"}
        for m in sub_perm(a2, 4 if big else 3, 3):
            for f in (True, False) if len(m) < 3 else (True,):
                yield {"doc": DOCS["o2g"], "meas": m, "mform": ("list", "tuple")[len(m) % 2], "fast": f}
            if len(m) == 1 or len(m) == 2 and "C" in m:
                yield {"doc": DOCS["o2m"], "meas": m, "mform": "list"}
            if len(m) == 1:
                yield {"doc": DOCS["o2g"], "meas": m, "mform": "str"}
    yield ("measurements", B())

    def C():  # both, with the other options
        for u in (["G"], ["R", "G"], ["E", "R"], ["E", "G", "R"]):
            for m in sub_perm(["C", "L", "S1", "L1", "D"], 2):
                for ind in (False, True):
                    yield {"doc": DOCS["o3"], "use": u, "meas": m, "ind": ind, "uform": "set"}
                    yield {"doc": DOCS["o3m"], "use": u, "meas": m, "ind": ind, "w": [30, 90]}
                    if len(u) < 2 or big:
                        yield {"doc": DOCS["o2m"], "use": u, "meas": m, "ind": ind, "fast": len(m) == 1}
                        yield {"doc": DOCS["o2m"], "use": u, "meas": m, "ind": ind, "interval": 60, "w": [30, 120]}
    yield ("both", C())

    def D():  # type lists: every selection from lists where prefixes collide, at every position (continuation lines included)
        for n in (1, 2, 4, 5, 6, 9, 10, 13, 14, 20):
            o2 = "C1 L1 P1 L2 P2 S1 S2 D1 D2 C2 C5 L5 S5 D5 C6 L6 S6 D6 C7 L7".split()[:n]
            o3 = [a + b + c for b in "12578" for a in "CLDS" for c in "CWXQ"][:n]
            for k, types in (("o2", o2), ("o3", {"G": o3, "R": o3[: max(1, n // 2)]})):
                sv = [["G01", "G07"], ["G07"]] if k == "o2" else [["G01", "R07"], ["R07", "G02"]]
                d = {"k": k, "sys": "G" if k == "o2" else "M", "types": types, "trim": bool(n % 2), "ev": eps([0, 30], sv, ["b", "vb.l"])}
                for t in (o2 if k == "o2" else o3):
                    for ind in (False, True):
                        yield {"doc": d, "meas": [t], "ind": ind}
                for a, b in zip(o2 if k == "o2" else o3, (o2 if k == "o2" else o3)[2:]):
                    yield {"doc": d, "meas": [b, a], "ind": True}
    yield ("type lists", D())

    def E():  # navigation
        recs = [("G01", 0), ("R02", 900), ("E03", 0), ("C04", 7200), ("J05", 0), ("S06", 900), ("I07", 0), ("G01", 7200), ("R02", 900)]
        for u in sub_perm("GRECJSI", 7, 2):
            for f in FORMS if len(u) < 3 else FORMS[2:3]:
                yield {"doc": {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in recs]}, "use": u, "uform": f}
            if len(u) == 1:
                yield {"doc": {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in recs]}, "use": u, "uform": "str"}
        for p in permutations(recs[:4]):
            for u in sub_perm("GRE", 2):
                yield {"doc": {"k": "n3", "ev": [{"sv": s, "t": t} for s, t in p]}, "use": u}
    yield ("navigation", E())


def hash3(m):
    return sum((i + 1) * sum(map(ord, x)) for i, x in enumerate(m))


def run(case, ctx):
    d = case["doc"]
    if d["k"] == "n3":
        fn = ctx.write("doc.rnx", render(d))
        u = case["use"]
        f = case.get("uform", "list")
        arg = u[0] if f == "str" else {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[f](u)
        ds = must(load, fn, use=arg, _what=f"load(use={arg})")
        exp, rec = nav_cells(d, use=u)
        check_nav(ds, exp, rec, ALLNAMES)
        return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(d["ev"]), states=len(d["ev"]) + 1, trivial=not exp)
    ds, exp = run_obs(case, ctx)
    return obs_result(case, exp)
