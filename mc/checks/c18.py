"""C18: loss-of-lock and signal-strength flags stay with their values."""
from itertools import permutations, product
from ..core import Obs, Violation
from ..docs import render
from ..observe import cells, diff, must
from ..small import OBS, SETS, load, obs_result, opts_of, run_obs, with_times

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all flag patterns and option combinations, real code compared with the reference model and with the flagless load"
RULE = "one case = one file (pattern of value/flag presence over satellites x measurements) and one option combination; all flags " \
       "and values compared with the reference, values also with the load without indicators; trivial = no flag"
ASSUMPTIONS = ["signal strength of a signal strength measurement (S..ssi) is left open by the property"]
CODES = "vlsb.fghN"


def spaces(tier):
    big = tier == "thorough"

    def A():  # every pattern over the cells of one satellite
        for k in ("o2", "o3"):
            for p in product(CODES if big else "vlsb.f", repeat=3):
                p = "".join(p)
                ty = ["L1", "C1", "L2"] if k == "o2" else {"G": ["L1C", "C1C", "L2W"]}
                yield {"doc": {"k": k, "sys": "G", "types": ty, "trim": p.count("b") == 1, "ev": [{"e": 0, "s": ["G02"], "p": p}, {"e": 30, "s": ["G02", "G03"], "p": "b"}]}}
        for k in ("o2", "o3"):
            for p, q in product(CODES, repeat=2):
                for ty in (["L1", "S1"], ["D1", "L5"], ["P2", "L7"]):
                    t = ty if k == "o2" else {"G": [x + "C" if x[0] != "P" else "C2W" for x in ty]}
                    yield {"doc": {"k": k, "sys": "G", "types": t, "ev": [{"e": 0, "s": ["G01", "G09"], "p": {"G01": p + q, "G09": q + p}}]}}
    yield ("patterns", A())

    def B():  # every measurement type
        for b in "125678":
            for a in "CPLDS":
                yield {"doc": {"k": "o2", "sys": "G", "types": [a + b, "L1" if a + b != "L1" else "L2"], "ev": [{"e": 0, "s": ["G01", "G02"], "p": "bls"}, {"e": 30, "s": ["G02"], "p": "b"}]}}
        for b in "123456789":
            for c in "CPWXQIALSDB":
                for a in "CLDS":
                    for s in "GREC" if c in "CX" else "G":
                        yield {"doc": {"k": "o3", "sys": "M", "types": {s: [a + b + c, "L1Z"]}, "ev": [{"e": 0, "s": [s + "01", s + "02"], "p": "bls"}, {"e": 30, "s": [s + "02"], "p": "b"}]}}
        for n in range(1, 27):
            o2 = "C1 L1 P1 L2 P2 S1 S2 D1 D2 C2 C5 L5 S5 D5 C6 L6 S6 D6 C7 L7 S7 D7 C8 L8 S8 D8".split()[:n]
            o3 = [a + b + c for b in "12578" for a in "CLDS" for c in "CWXQ"][:n]
            for trim in (False, True):
                for p in ("b", "v" * (n - 1) + "l", "v" * (n - 1) + "s", "b."):
                    yield {"doc": {"k": "o2", "sys": "G", "types": o2, "trim": trim, "ev": [{"e": 0, "s": ["G01", "G02"], "p": p}]}}
                    yield {"doc": {"k": "o3", "sys": "M", "types": {"G": o3, "R": o3[::-1][: 1 + n // 2]}, "trim": trim, "ev": [{"e": 0, "s": ["R01", "G01", "G02"], "p": p}]}}
    yield ("measurement types", B())

    def C():  # options
        uses = (None, ["G"], ["R", "E"], ["E", "G", "R"])
        meass = (None, ["L"], ["C"], ["S"], ["D", "L1"], ["L2", "C1"], ["L1", "C"], ["L8", "S1", "D"])
        for u, m, w, iv in product(uses, meass, (None, [30, 90]), (None, 60)):
            yield {"doc": OBS["o3m"], "use": u, "meas": m, "w": w, "interval": iv}
            if u is not None and (len(u) == 1 or big):
                for fast in (True, False):
                    yield {"doc": OBS["o2m"], "use": u, "meas": m, "w": w, "interval": iv, "fast": fast}
            if u is None:
                for fast in (True, False):
                    yield {"doc": OBS["o2g"], "meas": m, "w": w, "interval": iv, "fast": fast}
                yield {"doc": OBS["o3g"], "meas": m, "w": w, "interval": iv}
    yield ("options", C())

    def D():  # histories: a satellite's flags appear, vanish, appear
        alpha = [(["G01"], "b"), (["G02", "G01"], "v"), (["G02"], "l"), (["G01", "G02"], "s")]
        for evs in product(alpha, repeat=3):
            ev = [{"e": 30 * i, "s": s, "p": p} for i, (s, p) in enumerate(evs)]
            yield {"doc": {"k": "o2", "sys": "G", "types": ["C1", "L1"], "ev": ev}}
            yield {"doc": {"k": "o3", "sys": "G", "types": {"G": ["C1C", "L1C"]}, "ev": ev}}
        alpha = [(["G01", "R01"], "b"), (["R01"], "v"), (["G01"], "l"), (["R01", "G01"], "s")]
        for evs in product(alpha, repeat=3):
            ev = [{"e": 30 * i, "s": s, "p": p} for i, (s, p) in enumerate(evs)]
            yield {"doc": {"k": "o3", "sys": "M", "types": {"G": ["C1C", "L1C"], "R": ["L1C", "C2C", "L2C"]}, "ev": ev}}
    yield ("histories", D())


def run(case, ctx):
    case = dict(case, ind=True)
    ds, exp = run_obs(case, ctx)
    a, _ = opts_of(dict(case, ind=False))
    ref = must(load, ctx.path("doc.18o"), **a)
    g = cells(ds)
    diff({k: v for k, v in g.items() if not k.endswith(("lli", "ssi"))}, cells(ref), "load with indicators, compared with the load without")
    o = obs_result(case, exp)
    o.trivial = not any(k.endswith(("lli", "ssi")) for k in exp)
    o.execs = 2
    return o
