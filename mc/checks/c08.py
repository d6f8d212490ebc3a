"""C08: interval thinning keeps exactly the due epochs, unaltered."""
from itertools import combinations, product
from ..core import Obs, Violation
from ..docs import render
from ..observe import attempt
from ..small import OBS, load, obs_result, opts_of, run_obs, with_times

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all epoch histories on a time grid x intervals, real code compared with the thinning reference model"
RULE = "one case = one epoch history (every subset of a time grid), one interval in one form and reader mode; epochs and " \
       "every value compared with the reference; trivial = nothing loaded"
ASSUMPTIONS = ["epochs rise within a file", "due times count from the first epoch, gaps do not reset them (pinned by the existing tests)"]
NAMES = ("o2g", "o3g", "o3m")


def spaces(tier):
    big = tier == "thorough"
    grid = [0, 10, 20, 30, 40, 50, 60] + ([70, 80] if big else [])

    def A():
        for n in range(1, len(grid) + 1):
            for c in combinations(grid, n):
                if c[0] not in (0, 10):
                    continue
                for iv in (10, 15, 20, 30):
                    for name, fast in (("o2g", True), ("o2g", False), ("o3g", True)):
                        yield {"doc": with_times(OBS[name], list(c)), "interval": iv, "fast": fast, "iform": ("int", "float", "td")[(n + iv // 5) % 3]}
    yield ("epoch histories", A())

    def B():  # forms and values of the interval, sub-second and irregular epochs
        tls = ([0, 30, 60, 90, 120], [0, 1, 2, 3, 4, 5, 6], [0, 0.2, 0.4, 0.6, 0.8, 1.0], [0.1, 30.1, 60.0, 90.2, 119.9], [0, 29.999, 60.001, 90, 120],
               [0, 30, 300, 330, 360, 390], [0], [86370, 86400, 86430, 86460])
        for ts, iv, form, (name, fast) in product(tls, (0, 0.2, 0.3, 0.5, 1, 1.5, 2, 29.999, 30, 30.001, 45, 59.999, 60, 61, 89.9, 90, 300, 1e6), ("int", "float", "td"),
                                                  (("o2g", True), ("o2g", False), ("o3g", True), ("o3m", True))):
            if form == "int" and iv != int(iv):
                continue
            yield {"doc": with_times(OBS[name], ts), "interval": iv, "iform": form, "fast": fast}
        for ms in range(1, 10001 if big else 2001):  # every millisecond; epochs just before and at what is due
            iv = ms / 1000
            ts = sorted({round(x, 3) for n in (0, 1, 2, 3) for x in (n * iv - 0.001, n * iv) if x >= 0})
            yield {"doc": with_times(OBS[("o2g", "o3g")[ms % 2]], ts), "interval": iv, "iform": "float", "fast": bool(ms % 4 < 2)}
    yield ("interval values", B())

    def C():  # with the other options
        for iv, w, name in product((15, 30, 45, 60), ([0, 120], [30, 90], [15, 100], [60, 60], [1, 29], [-60, 45], [100, 400], None), ("o2m", "o3m", "o2g")):
            for opt in ({}, {"use": ["R"]}, {"use": ["E", "G"]}, {"meas": ["L"]}, {"ind": True}, {"fast": False}, {"fast": False, "use": ["R"], "ind": True, "meas": ["L1", "C"]}):
                if name == "o2g" and "use" in opt:
                    continue
                if name == "o2m" and not big and (iv in (15, 45) or not opt or w and w[0] in (60, 1)):
                    continue
                yield dict({"doc": with_times(OBS[name], [0, 30, 60, 90, 120]), "interval": iv, "w": w}, **opt)
        # events between epochs, many satellites (continuation lines are skipped)
        for name in ("o2g", "o3g"):
            base = with_times(OBS[name], [0, 30, 60, 90])
            for x in ({"x": 4, "n": ["a comment" + " " * 51 + "COMMENT"], "t": None}, {"x": 3, "n": ["x" * 8 + " " * 52 + "MARKER NAME"], "t": 45.0}, {"x": 6, "sl": ["G01", "G02"], "t": 30.0}):
                for slot, iv, fast in product(range(5), (30, 31, 60, 90), (True, False)):
                    ev = list(base["ev"])
                    ev.insert(slot, x)
                    yield {"doc": dict(base, ev=ev), "interval": iv, "fast": fast}
        for n, nt, k, iv, fast in product((1, 11, 12, 13, 24, 25), (1, 5, 6), ("o2", "o3"), (30, 45, 60), (True, False)):
            g = [f"G{i:02d}" for i in range(1, n + 1)]
            yield {"doc": {"k": k, "sys": "G", "types": ["C1", "L1", "P1", "L2", "P2", "S1"][:nt] if k == "o2" else {"G": ["C1C", "L1C", "S1C", "C2W", "L2W", "C5Q"][:nt]},
                           "ev": [{"e": 30 * i, "s": g, "p": "b"} for i in range(4)]}, "interval": iv, "fast": fast}
    yield ("with options", C())

    def D():
        for name, iv, form, fast in product(("o2g", "o2m", "o3g", "o3m"), (-30, -0.5, -1, -1e-3, -1e6), ("int", "float", "td"), (True, False)):
            if form == "int" and iv != int(iv):
                continue
            yield {"doc": OBS[name], "interval": iv, "iform": form, "fast": fast, "neg": True}
    yield ("negative intervals", D())


def run(case, ctx):
    if case.get("neg"):
        fn = ctx.write("doc.18o", render(case["doc"]))
        a, _ = opts_of(case)
        ds, e = attempt(load, fn, **a)
        if not isinstance(e, ValueError):
            raise Violation(f"load({a}) should be rejected with ValueError, got {'a dataset' if e is None else repr(e)}")
        return Obs("ValueError")
    ds, exp = run_obs(case, ctx)
    return obs_result(case, exp)
