"""C09: fast and strict reading give the same result."""
from itertools import product
from ..core import Obs, Violation, digest
from ..docs import DEFHDR, NOINT, render
from ..observe import attr_eq, cells, coords_of, diff, must
from ..small import OBS, T0, load, obs_result, opts_of, run_obs, with_times

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of files (sizes around every allocation estimate) and option combinations; fast, strict and reference model compared"
RULE = "one case = one RINEX 2 file and option combination, loaded fast and strict: same epochs, satellites, variables, values and attributes, " \
       "equal to the reference reader; trivial = nothing loaded"
ASSUMPTIONS = ["attribute fast_processing tells the mode and differs"]
OBS2 = "C1 L1 P1 L2 P2 S1 S2 D1 D2 C2 C5 L5 S5 D5 C6 L6 S6 D6 C7 L7".split()


def spaces(tier):
    big = tier == "thorough"

    def A():  # sizes: satellites x types x epochs, lines trimmed or not
        for n, nt, ne, trim, p in product((0, 1, 2, 3, 5, 6, 7, 12, 13, 24, 25), (1, 2, 4, 5, 6, 10, 11), (1, 2, 3, 7, 20), (False, True), ("b", "v....")):
            if n == 0 and ne < 3:
                continue
            if not big and ne == 20 and (n > 7 or n == 3 or nt in (2, 10)):
                continue
            g = [f"G{i:02d}" for i in range(1, n + 1)]
            ev = [{"e": 30 * i, "s": g, "p": p} for i in range(ne)]
            if n == 0:
                ev[1] = {"e": 30, "s": ["G01"], "p": p}
            yield {"doc": {"k": "o2", "sys": "G", "types": OBS2[:nt], "trim": trim, "hdr": NOINT if nt % 2 else DEFHDR, "ev": ev}}
        for ne in (150, 300):
            for n in (1, 2, 4):
                yield {"doc": {"k": "o2", "sys": "G", "types": OBS2[:5], "hdr": NOINT, "ev": [{"e": 30 * i, "s": [f"G{j:02d}" for j in range(1, n + 1)], "p": "b"} for i in range(ne)]}}
    yield ("sizes", A())

    def B():  # shrinking and growing constellations, first epoch untypical for the estimate
        for a, b, c in product((1, 2, 6, 13), repeat=3):
            for nt in (1, 5, 6):
                for trim in (False, True):
                    for p0 in ("b", "v", "v.", "."):
                        ev = [{"e": 30 * i, "s": [f"G{j:02d}" for j in range(1, n + 1)], "p": p0 if i == 0 else "b"} for i, n in enumerate((a, b, c, b, c, a))]
                        yield {"doc": {"k": "o2", "sys": "G", "types": OBS2[:nt], "trim": trim, "hdr": NOINT, "ev": ev}}
    yield ("constellations", B())

    def C():  # options
        for u, m, w, iv, ind in product((None, ["G"], ["R"], ["E", "G"]), (None, ["L"], ["C1", "S"]), (None, [30, 90], [31, 400], [-50, 0], [500, 600]), (None, 0, 31, 60), (False, True)):
            if u is None:
                yield {"doc": OBS["o2g"], "meas": m, "w": w, "interval": iv, "ind": ind}
                continue
            if len(u) == 2 and not big and (m or ind):
                continue
            yield {"doc": OBS["o2m"], "use": u, "meas": m, "w": w, "interval": iv, "ind": ind}
        for name in ("o2m",):
            for w, iv in product((None, [30, 90]), (None, 60)):
                for hdr in (DEFHDR, NOINT):
                    for ind in (False, True):
                        yield {"doc": dict(OBS[name], hdr=hdr), "w": w, "interval": iv, "ind": ind}
    yield ("options", C())

    def D():  # events, clock offsets, flags, line ends, fractional and repeated hours
        evs = ({"x": 4, "n": ["a comment" + " " * 51 + "COMMENT"], "t": None}, {"x": 4, "n": ["a comment" + " " * 51 + "COMMENT"] * 3, "t": 12.0},
               {"x": 3, "n": ["x" * 8 + " " * 52 + "MARKER NAME"], "t": 45.0}, {"x": 2, "n": [], "t": 46.0},
               {"x": 5, "n": ["a comment" + " " * 51 + "COMMENT"], "t": 31.0}, {"x": 6, "sl": ["G01", "G02"], "t": 30.0})
        for x, slot, eol, iv, w in product(evs, range(4), ("n", "rn"), (None, 60), (None, [30, 60])):
            ev = list(with_times(OBS["o2g"], [0, 30, 60])["ev"])
            ev.insert(slot, x)
            yield {"doc": dict(OBS["o2g"], ev=ev, eol=eol), "interval": iv, "w": w}
        for ts in ([0, 0.2, 0.4, 0.6], [0.1, 0.3, 10.2], [86399, 86400, 86401], [0, 30, 3600]):
            for iv, w in product((None, 0.4, 1, 30), (None, [0, 1], [86400, 86400])):
                yield {"doc": with_times(OBS["o2g"], ts), "interval": iv, "w": w}
    yield ("events and times", D())


def run(case, ctx):
    fast, exp = run_obs(dict(case, fast=True), ctx)
    strict, exp = run_obs(dict(case, fast=False), ctx)
    diff(cells(fast), cells(strict), "load(fast=True) compared with load(fast=False)")
    a, b = coords_of(fast), coords_of(strict)
    if sorted(a[0]) != sorted(b[0]) or sorted(a[1]) != sorted(b[1]):
        raise Violation(f"fast: epochs and satellites {a}, strict: {b}")
    if set(fast.data_vars) != set(strict.data_vars):
        raise Violation(f"fast: measurements {sorted(fast.data_vars)}, strict: {sorted(strict.data_vars)}")
    if set(fast.attrs) != set(strict.attrs):
        raise Violation(f"fast: attributes {sorted(fast.attrs)}, strict: {sorted(strict.attrs)}")
    for k in fast.attrs:
        if k != "fast_processing" and not attr_eq(fast.attrs[k], strict.attrs[k]):
            raise Violation(f"attribute {k}: fast {fast.attrs[k]}, strict {strict.attrs[k]}")
    o = obs_result(case, exp)
    o.execs = 2
    return o
