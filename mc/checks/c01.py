"""C01: RINEX 2 observations load exactly as written."""
from itertools import product, permutations
from ..core import Obs, digest
from ..docs import DEFHDR, NOINT, hl, obs_cells, obs_sats, render
from ..observe import check_obs, must
from .c02 import merge_times

ID = "C01"
LEVEL = "model_checking"
RULE = "one case = one event history of a RINEX 2 observation file; reference reader stepped event by event, " \
       "the rendered file loaded by georinex.load and every labelled cell compared; trivial = no observation at all"
ASSUMPTIONS = ["observation values, types and satellite numbers are drawn from the documented finite alphabets",
               "well-formed files: rising epochs, no satellite twice in an epoch, types unchanged within a file"]

OBS2 = "C1 L1 P1 L2 P2 S1 S2 D1 D2 C2 C5 L5 S5 D5 C6 L6 S6 D6 C7 L7 S7 D7 C8 L8 S8 D8 P5 P6 T1 T2".split()
SYS2 = "GRESCJ"
SATS = [f"{s}{n:02d}" for n in range(1, 33) for s in "GRE"]
HDRX = [hl("comment in event", "COMMENT")]
EV_SPECIAL = [
    {"x": 4, "n": HDRX, "t": None},
    {"x": 4, "n": HDRX * 2, "t": 12.0},
    {"x": 3, "n": [hl("NEWM", "MARKER NAME")], "t": 17.0},
    {"x": 2, "n": [], "t": 18.0},
    {"x": 5, "n": [], "t": 19.5},
    {"x": 4, "n": [], "t": None},
    {"x": 5, "n": HDRX, "t": 19.5},
    {"x": 6, "sl": ["G01", "R03"], "t": 0.0},
    {"x": 6, "sl": ["G02"], "t": 30.0},
    {"x": 4, "n": [hl("G01G02 is text", "COMMENT"), hl("1234  56  78", "COMMENT")], "t": 12.0},
    {"x": 3, "n": [hl("NEWM", "MARKER NAME"), hl("77", "MARKER NUMBER"), hl("", "COMMENT")], "t": None},
]


def spaces(tier):
    big = tier == "thorough"
    sp = []
    types3 = ["C1", "L1", "S1"]

    def A():
        satsets = [["G01"], ["G02", "G01"], ["R01", "G01"], ["G02", "R03", "E05"], ["E05", "G01", "R03", "G02"]]
        pats = ["b", "v", "v.", ".b", "b..", "..b", "w", "q", "nl", {"G": "b", "*": "."}, {"G01": ".", "*": "sN"}]
        alpha = [{"s": s, "p": p} for s in satsets for p in pats]
        for trim in (False, True):
            for ev in alpha:
                yield {"k": "o2", "sys": "M", "types": types3, "trim": trim, "ev": merge_times([ev])}
        galpha = [{"s": s, "p": p} for s in (["G01"], ["G02", "G01"], ["G31", "G03"]) for p in pats]
        for trim in (False, True):
            for evs in product(galpha if big else galpha[::2], repeat=2):
                yield {"k": "o2", "sys": "G", "types": types3, "trim": trim, "ev": merge_times(evs)}
    sp.append(("epochs", A()))

    # every number of observation types: continuation lines of 5 values, header continuation at 9
    def B():
        for n in range(1, 31):
            for p in ("b", "v.", "vvvv.", ".....v", "v" * (n - 1) + "." if n > 1 else "v", {"G01": ".", "*": "lsv"},
                      {"G03": "v" + "." * 29, "*": "v"}):
                for trim in (False, True):
                    yield {"k": "o2", "sys": "G", "types": OBS2[:n], "trim": trim,
                           "ev": merge_times([{"s": ["G03", "G01"], "p": p}, {"s": ["G01", "G04"], "p": "b"}])}
            for p in ("b", {"R02": ".", "*": "v."}):
                yield {"k": "o2", "sys": "M", "types": OBS2[:n], "trim": True,
                       "ev": merge_times([{"s": ["G01", "R02", "G03"], "p": p}, {"s": ["R02", "E04"], "p": "b"}])}
    sp.append(("type counts", B()))

    def C():
        ep = [{"s": ["G01", "G03"], "p": "b"}, {"s": ["G02"], "p": "v."}, {"s": ["G04", "G01"], "p": "b", "f": 1}]
        for n in (1, 2) if not big else (1, 2, 3):
            for slots in product(range(4), repeat=n):
                if list(slots) != sorted(slots):
                    continue
                for xs in product(EV_SPECIAL, repeat=n):
                    if n == 3 and len({id(x) for x in xs}) != 3:
                        continue
                    evs = []
                    for i in range(4):
                        evs += [x for x, s in zip(xs, slots) if s == i]
                        if i < 3:
                            evs.append(ep[i])
                    for nt in (2, 6):
                        yield {"k": "o2", "sys": "G", "types": OBS2[:nt], "ev": merge_times(evs)}
                    if n == 1:
                        yield {"k": "o2", "sys": "M", "types": OBS2[:6], "ev": merge_times(
                            [dict(e, s=["R07"] + e["s"]) if "s" in e else e for e in evs])}
    sp.append(("special events", C()))

    # satellite lists: continuation at 12, 24, ... for every size; orders; all systems and numbers
    def D():
        for n in list(range(1, 65)):
            for nt in (1, 5, 6) if big else ((1, 6)[n % 2],):
                yield {"k": "o2", "sys": "M", "types": OBS2[:nt], "ev": merge_times(
                    [{"s": SATS[:n], "p": "b"}, {"s": SATS[n : 2 * n][:30] or ["G01"], "p": "v."}, {"s": SATS[:n][::-1], "p": "b"}])}
            g = [f"G{i:02d}" for i in range(1, 33)][:n]
            for nt in (1, 4, 5, 6, 11):
                yield {"k": "o2", "sys": "G", "types": OBS2[:nt], "ev": merge_times(
                    [{"s": g, "p": "b"}, {"s": g[:1], "p": "v."}, {"s": g[::-1], "p": "b"}])}
        sv = ["G01", "R02", "E03", "G32", "S20"]
        for i, p in enumerate(permutations(sv)):
            if big or i % 4 == 0:
                yield {"k": "o2", "sys": "M", "types": ["C1", "L1"], "ev": merge_times([{"s": list(p), "p": "b"}, {"s": list(p[:2]), "p": "v."}])}
    sp.append(("satellite lists", D()))

    def E():
        for s in SYS2:
            for n in range(1, 100 if s in "SCJ" else 37):
                if not big and s in "SCJ" and n > 40 and n % 7 and n not in (58, 59, 60, 61, 62, 63):
                    continue
                if s in "CJ" and n > 63 or s == "J" and n > 10:
                    continue
                for spn in (False, True):
                    yield {"k": "o2", "sys": s if s not in "SCJ" or n % 2 else "M", "types": ["C1", "L1"], "sp_num": spn,
                           "ev": merge_times([{"s": [f"{s}{n:02d}"], "p": "b"}])}
        # a blank system letter is GPS
        for sysc in "GM ":
            for n in (1, 2, 12, 13):
                yield {"k": "o2", "sys": sysc, "blankG": True, "types": ["C1", "L1"],
                       "ev": merge_times([{"s": [f"G{i:02d}" for i in range(1, n + 1)], "p": "b"}] * 2)}
            yield {"k": "o2", "sys": sysc, "blankG": True, "sp_num": True, "types": ["C1", "L1"],
                   "ev": merge_times([{"s": ["G07", "G11"], "p": "b"}] * 2)}
    sp.append(("satellites", E()))

    def F():
        hdrs = [DEFHDR, NOINT, ["types", "tfo"], ["com", "types", "com2", "tfo", "com3"], ["tfo", "types", "pos"],
                ["com3", "com", "marker", "obsv", "rec", "ant", "pos", "delta", "wave", "types", "int", "tfo", "tlo",
                 "rcv", "leap", "nsat"], ["types", "int_bad", "pos_bad", "tfo", "rcv_bad"]]
        evs = merge_times([{"s": ["G01", "G02"], "p": "b"}, {"s": ["G02", "G07"], "p": "v.", "c": 0.000123456}])
        for h, eol, last, trim, ver in product(hdrs, ("n", "rn"), (True, False), (False, True),
                                               ("2.00", "2.10", "2.11", "2.12", "1.00")):
            for n in (1, 9, 10):
                yield {"k": "o2", "ver": ver, "sys": "G", "hdr": h, "eol": eol, "last_eol": last, "trim": trim,
                       "types": OBS2[:n], "ev": evs}
        for h, eol, trim in product(hdrs, ("n", "rn"), (False, True)):
            for n in (1, 19):
                yield {"k": "o2", "sys": "M", "hdr": h, "eol": eol, "trim": trim, "types": OBS2[:n], "ev": evs}
    sp.append(("headers and line ends", F()))

    def G():
        sets = [["G01"], ["G02"], ["G01", "G02"], ["G03", "G01"]]
        for n in (3, 4) if not big else (3, 4, 5):
            for evs in product(range(len(sets)), repeat=n):
                yield {"k": "o2", "sys": "G", "types": ["C1", "L1"], "trim": True,
                       "ev": merge_times([{"s": sets[i], "p": "bv"} for i in evs])}
        sets = [["G01"], ["R01"], ["R01", "G02"], ["E04", "G01"], ["R02", "E04"]]
        for evs in product(range(len(sets)), repeat=3 if not big else 4):
            yield {"k": "o2", "sys": "M", "types": ["C1", "L1"], "trim": True,
                   "ev": merge_times([{"s": sets[i], "p": "bv"} for i in evs])}
    sp.append(("histories", G()))

    def H():  # long files with many and with few satellites
        for n in (1, 2, 5, 6, 7, 12, 13):
            for ne in (10, 40, 99):
                for nt in (1, 4, 5, 6, 10):
                    g = [f"G{i:02d}" for i in range(1, 33)][:n]
                    yield {"k": "o2", "sys": "G", "types": OBS2[:nt], "dt": 30,
                           "ev": merge_times([{"s": g if i % 2 else g[::-1], "p": "b"} for i in range(ne)])}
    sp.append(("long files", H()))
    return sp


def run(case, ctx):
    import georinex as gr
    txt = render(case)
    fn = ctx.write("doc.18o", txt)
    exp, times = obs_cells(case)
    ds = must(gr.load, fn)
    try:
        check_obs(ds, exp, set(case["types"]), set(times), obs_sats(case))
    except Exception as e:
        if hasattr(e, "files"):
            e.files["18o"] = txt
        raise
    return Obs(digest(sorted((k, sorted(v.items())) for k, v in exp.items())), transitions=len(case["ev"]),
               states=len(case["ev"]) + 1, trivial=not exp)
