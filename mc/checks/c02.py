"""C02: RINEX 3 observations load exactly as written."""
from itertools import product, permutations
from ..core import Obs, digest
from ..docs import (DEFHDR, NOINT, hl, obs_cells, obs_epochs, obs_sats, render, SYS)
from ..observe import check_obs, must

ID = "C02"
LEVEL = "model_checking"
RULE = "one case = one event history of a RINEX 3 observation file; reference reader stepped event by event, " \
       "the rendered file loaded by georinex.load and every labelled cell compared; trivial = no observation at all"
ASSUMPTIONS = ["observation values, types and satellite numbers are drawn from the documented finite alphabets",
               "type codes have three characters"]


def ty(n, off=0):
    """n distinct RINEX 3 observation codes"""
    base = [a + b + c for b in "12578" for a in "CLDS" for c in "CWXQ"]
    return [base[(i + off) % len(base)] for i in range(n)]


HDRX = [hl("comment in event", "COMMENT")]
EV_SPECIAL = [
    {"x": 4, "n": HDRX, "t": None},
    {"x": 4, "n": HDRX * 2, "t": 12.0},
    {"x": 3, "n": [hl("NEWM", "MARKER NAME")], "t": 17.0},
    {"x": 2, "n": [], "t": 18.0},
    {"x": 5, "n": [], "t": 19.5},
    {"x": 4, "n": [], "t": None},
    {"x": 5, "n": HDRX, "t": 19.5},
    {"x": 6, "sl": ["G01", "R03"], "t": 0.0},
    {"x": 6, "sl": ["G02"], "t": 30.0},
    {"x": 4, "n": [hl("> 2018 07 29 00 00  0.0000000  0  1", "COMMENT")], "t": 12.0},
    {"x": 3, "n": [hl("NEWM", "MARKER NAME"), hl("77", "MARKER NUMBER"), hl("G01 is a satellite", "COMMENT")], "t": None},
]


def merge_times(evs, dt=30):
    """give epochs rising times"""
    out, n = [], 0
    for e in evs:
        e = dict(e)
        if "s" in e:
            e["e"] = n * dt
            n += 1
        out.append(e)
    return out


def spaces(tier):
    big = tier == "thorough"
    sp = []
    # A: all histories of epochs x satellite sets/orders x blank patterns
    types = {"G": ["C1C", "L1C", "S1C"], "R": ["C1C", "L1C"], "E": ["C1X"]}
    satsets = [["G01"], ["G01", "G02"], ["R01", "G01"], ["G02", "R03", "E05"], ["E05", "G01", "R03", "G02"]]
    pats = ["b", "c", "mc", "z", "v", "v.", ".b", "b..", "..b", "w", "q", "nl", {"G": "b", "*": "."}, {"G01": ".", "*": "sN"}]
    alpha = [{"s": s, "p": p} for s in satsets for p in pats]

    def A():
        for trim in (False, True):
            for n in (1, 2):
                small = alpha if n == 1 else [alpha[i] for i in range(0, len(alpha), 1 if big else 3)]
                for evs in product(small, repeat=n):
                    yield {"k": "o3", "sys": "M", "types": types, "trim": trim, "ev": merge_times(evs)}
    sp.append(("epochs", A()))

    # B: number of types per system (header continuation at 13, 26), first/last/blank
    def B():
        for n in range(1, 41 if big else 30):
            for m in (1, 3, 14, 26, 27):
                for p in ("b", "v.", ".v", "vvvvvvvvvvvv.", {"G01": ".", "*": "v"}, {"R02": ".", "*": "lsv"}):
                    for trim in (False, True):
                        yield {"k": "o3", "types": {"G": ty(n), "R": ty(m, 5)}, "trim": trim,
                               "ev": merge_times([{"s": ["G01", "R02", "G03"], "p": p}, {"s": ["R02", "G03"], "p": "b"}])}
        for n in (1, 12, 13, 14, 26, 27, 39, 40):  # every system, alone and with another one
            for a in SYS:
                for trim in (False, True):
                    yield {"k": "o3", "sys": a if a != "S" else "M", "types": {a: ty(n)}, "trim": trim, "ev": merge_times([{"s": [a + "01"], "p": "b"}, {"s": [a + "01", a + "07"], "p": "v."}])}
            for m in (1, 13, 14, 27):
                for a, b in permutations(SYS, 2):
                    if (n + m + SYS.index(a)) % 2 == 0 or big:
                        yield {"k": "o3", "types": {a: ty(n), b: ty(m, 5)}, "trim": n % 2 == 0, "ev": merge_times([{"s": [b + "02", a + "01"], "p": "b"}, {"s": [a + "01"], "p": "v"}])}
    sp.append(("type counts", B()))

    # C: special events at every place
    def C():
        ep = [{"s": ["G01", "R02"], "p": "b"}, {"s": ["G02"], "p": "v."}, {"s": ["R02", "G01"], "p": "b", "f": 1}]
        for n in (1, 2) if not big else (1, 2, 3):
            for slots in product(range(4), repeat=n):
                if list(slots) != sorted(slots):
                    continue
                for xs in product(EV_SPECIAL, repeat=n):
                    if n == 2 and not big and (EV_SPECIAL.index(xs[0]) * 3 + EV_SPECIAL.index(xs[1])) % 2:
                        continue
                    if n == 3 and len({id(x) for x in xs}) != 3:
                        continue
                    evs = []
                    for i in range(4):
                        evs += [x for x, s in zip(xs, slots) if s == i]
                        if i < 3:
                            evs.append(ep[i])
                    yield {"k": "o3", "types": {"G": ["C1C", "L1C"], "R": ["C1C"]}, "ev": merge_times(evs)}
    sp.append(("special events", C()))

    # D: every order of satellites and systems
    def D():
        sv = ["G01", "R02", "E03", "G32", "C40"]
        types = {"G": ["C1C", "L1C"], "R": ["L1C", "C1C", "S1C"], "E": ["C1C"], "C": ["L2I", "C2I"]}
        for hdrorder in permutations("GREC"):
            t = {k: types[k] for k in hdrorder}
            for svp in (permutations(sv) if hdrorder == tuple("GREC") or big else
                        (x for i, x in enumerate(permutations(sv)) if i % 17 == 0)):
                yield {"k": "o3", "types": t, "ev": merge_times([{"s": list(svp), "p": "b"}, {"s": list(svp[:2]), "p": "v."}])}
    sp.append(("satellite orders", D()))

    # E: every system, every satellite number; many satellites
    def E():
        for s in SYS:
            for n in range(1, 100, 1 if big else 7):
                for f in (False, True):
                    yield {"k": "o3", "sys": s if s != "S" else "M", "types": {s: ["C1C", "L1C"]}, "sp_num": f,
                           "ev": merge_times([{"s": [f"{s}{n:02d}"], "p": "b"}])}
        for n in list(range(1, 41)) + [63, 64, 65, 80, 99, 100, 101, 128]:
            sv = [f"{s}{i:02d}" for i in range(1, 41) for s in "GREC"][:n]
            yield {"k": "o3", "types": {s: ["C1C", "L1C"] for s in "GREC"}, "ev": merge_times([{"s": sv, "p": "b"}, {"s": sv[::-1], "p": "v."}])}
    sp.append(("satellites", E()))

    # F: headers and line ends
    def F():
        hdrs = [DEFHDR, NOINT, ["types", "tfo"], ["com", "types", "com2", "tfo", "com3"], ["tfo", "types", "pos"],
                ["com3", "com", "marker", "obsv", "rec", "ant", "pos", "delta", "types", "sig", "int", "tfo", "tlo",
                 "rcv", "phs", "leap", "nsat"], ["types", "int_bad", "pos_bad", "tfo", "rcv_bad"]]
        evs = merge_times([{"s": ["G01", "R02"], "p": "b"}, {"s": ["R02", "G07"], "p": "v.", "c": 0.000123456}])
        for h, eol, last, trim, ver, sysc in product(hdrs, ("n", "rn"), (True, False), (False, True),
                                                     ("3.00", "3.02", "3.03", "3.05"), "M"):
            for n in (1, 13, 14):
                yield {"k": "o3", "ver": ver, "sys": sysc, "hdr": h, "eol": eol, "last_eol": last, "trim": trim,
                       "types": {"G": ty(n), "R": ["C1C"]}, "ev": evs}
    sp.append(("headers and line ends", F()))

    # G: histories where satellites appear, disappear and come back
    def G():
        sets = [["G01"], ["G02"], ["R01"], ["R01", "G02"], ["E04", "G01"]]
        for n in (3, 4) if not big else (3, 4, 5):
            for evs in product(range(len(sets)), repeat=n):
                if n == 4 and not big and len(set(evs)) < 3:
                    continue
                yield {"k": "o3", "types": {"G": ["C1C", "L1C"], "R": ["L1C", "C5I"], "E": ["C1C", "S9X"]},
                       "trim": True, "ev": merge_times([{"s": sets[i], "p": "bv"} for i in evs])}
        one = [["G01"], ["G02"], ["G01", "G02"], ["G03", "G01"], ["G02", "G03"]]
        for n in (2, 3, 4) if not big else (2, 3, 4, 5):
            for evs in product(range(len(one)), repeat=n):
                if n == 4 and not big and len(set(evs)) < 3:
                    continue
                yield {"k": "o3", "types": {"G": ["C1C", "L1C"]}, "ev": merge_times([{"s": one[i], "p": "bv"} for i in evs])}
    sp.append(("histories", G()))
    return sp


def run(case, ctx):
    import georinex as gr
    txt = render(case)
    fn = ctx.write("doc.rnx", txt)
    exp, times = obs_cells(case)
    alltypes = {t for v in case["types"].values() for t in v}
    ds = must(gr.load, fn)
    try:
        check_obs(ds, exp, alltypes, set(times), obs_sats(case))
    except Exception as e:
        if hasattr(e, "files"):
            e.files["rnx"] = txt
        raise
    ncell = sum(map(len, exp.values()))
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(case["ev"]),
               states=len(case["ev"]) + 1, trivial=ncell == 0)
