"""C20: concurrent loads do not interfere."""
import shutil
import tempfile
from itertools import product
from pathlib import Path
import multiprocessing as mp
from ..core import Obs, Violation, digest, quiet
from ..docs import NOINT, render
from ..small import OBS
from . import c19
from .c19 import OPS, World, call, first_diff

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real code under a controlled scheduler: all schedules of two threads with one preemption at any executed line of georinex, " \
            "two preemptions at any pair of lines for the shorter operations"
RULE = "one case = one pair of operations and a block of schedules: both threads' results, arguments and files as when run alone; trivial = no schedule preempted anything"
ASSUMPTIONS = ["preemption points are the line boundaries of georinex' own code; library calls are atomic", "two threads, preemption bound 1 (2 where stated)"]
CHUNK = 2
CASE_TIMEOUT = 600

E2 = [{"e": 0, "s": ["G01", "G12"], "p": "b"}, {"e": 30, "s": ["G12"], "p": ".b"}]
EM = [{"e": 0, "s": ["R02", "G01"], "p": "b"}, {"e": 30, "s": ["R02"], "p": ".b"}]
TINY = {"a.18o": {"k": "o2", "sys": "M", "types": ["C1", "L1"], "hdr": ["types", "tfo", "pos"], "ev": EM},
        "b.18o": {"k": "o2", "sys": "G", "types": ["L1", "C1", "S1"], "hdr": ["types", "tfo", "int"], "ev": E2},
        "a.rnx": {"k": "o3", "sys": "M", "types": {"G": ["C1C", "L1C"], "R": ["C2C"]}, "hdr": ["types", "tfo", "pos"], "ev": EM},
        "a.18n": {"k": "n2", "ft": "N", "hdr": [], "ev": [{"sv": "G01", "t": 0}, {"sv": "G22", "t": 7200}]},
        "b.18g": {"k": "n2", "ft": "G", "hdr": [], "ev": [{"sv": "R01", "t": 900}]},
        "b.rnx": {"k": "n3", "hdr": c19.N3["hdr"], "ev": [{"sv": "R01", "t": 0}, {"sv": "G22", "t": 7200, "v": c19.KEP}, {"sv": "R01", "t": 0}]},
        "a.sp3": c19.SP3, "v.sp3": c19.SP3V}
# the other thread's files: same names, other satellites, values, types and times
O1 = "2018-07-29T06:00:00"
TINY2 = {"a.18o": dict(TINY["a.18o"], types=["P2", "C1", "D1"], t0=O1, hdr=["types", "tfo", "int", "pos"], pos=(1.0e6, 2.0e6, 6.0e6), ev=[{"e": 15, "s": ["G07", "R11", "G02"], "p": "b"}, {"e": 45, "s": ["R11"], "p": "n"}]),
         "b.18o": dict(TINY["b.18o"], types=["C1", "L2"], t0=O1, interval=15, ev=[{"e": 0, "s": ["G05"], "p": "b"}, {"e": 15, "s": ["G01", "G05"], "p": "n"}, {"e": 30, "s": ["G01"]}]),
         "a.rnx": dict(TINY["a.rnx"], t0=O1, types={"E": ["C1X"], "R": ["L2C", "C2C", "S1C"], "G": ["L1C"]}, pos=(1.0e6, 2.0e6, 6.0e6), ev=[{"e": 0, "s": ["E01", "R05"], "p": "b"}, {"e": 15, "s": ["R05", "G09"], "p": "n"}]),
         "a.18n": dict(TINY["a.18n"], t0=O1, ev=[{"sv": "G02", "t": 7200}, {"sv": "G01", "t": 0}]),
         "b.18g": dict(TINY["b.18g"], t0=O1, ev=[{"sv": "R05", "t": 900}, {"sv": "R01", "t": 2700}]),
         "b.rnx": dict(TINY["b.rnx"], t0=O1, hdr=[], ev=[{"sv": "E01", "t": 0, "rs": 1}, {"sv": "G22", "t": 3600, "v": dict(c19.KEP, **{"6": 2.0})}, {"sv": "R02", "t": 900}]),
         "a.sp3": dict(c19.SP3, sv=["R02", "G05", "E01"], t0=O1), "v.sp3": dict(c19.SP3V, sv=["G01"], t0=O1)}
# the same satellites, types and numbers of epochs, but other times and values
E3, E3M = ([dict(e, p=e["p"].replace("b", "N")) for e in ev] for ev in (E2, EM))
TINY3 = {"a.18o": dict(TINY["a.18o"], t0=O1, pos=(1.0e6, 2.0e6, 6.0e6), ev=E3M), "b.18o": dict(TINY["b.18o"], t0=O1, ev=E3), "a.rnx": dict(TINY["a.rnx"], t0=O1, pos=(1.0e6, 2.0e6, 6.0e6), ev=E3M),
         "a.18n": dict(TINY["a.18n"], t0=O1, ev=TINY["a.18n"]["ev"][::-1]), "b.18g": dict(TINY["b.18g"], t0=O1, ev=[{"sv": "R01", "t": 900, "v": {str(k): float(k + 50) for k in range(15)}}]),
         "b.rnx": dict(TINY["b.rnx"], t0=O1, hdr=c19.N3["hdr"][::-1], ev=[TINY["b.rnx"]["ev"][0], {"sv": "G22", "t": 7200, "v": dict(c19.KEP, **{"6": 2.0})}, {"sv": "R01", "t": 0, "v": {str(k): float(k + 50) for k in range(15)}}]),
         "a.sp3": dict(c19.SP3, sv=["G05", "R06"], t0=O1, ev=[{"e": 0}, {"e": 900, "s": ["R06"]}]), "v.sp3": dict(c19.SP3V, sv=["G05", "R06"], t0=O1)}
VARIANTS = {1: TINY, 2: TINY2, 3: TINY3}
QUICK = ["load2use", "load2ind", "load2lim", "load3use", "load3str", "loadn2", "loadn3use", "sp3", "sp3v", "crx", "s3", "timex", "time3", "timen", "headx", "head3", "headn", "info", "loc", "kep", "convn"]
MIX = ["load2use", "load2b", "load2ind", "load2lim", "loadx", "load3", "load3use", "load3str", "loadn2", "loadn2r", "loadn3", "loadn3use", "sp3", "sp3v", "crx", "s2", "s3", "sn", "timex", "time3",
       "timen", "headx", "head3", "headn", "info", "loc", "kep", "conv2", "convn", "bad"]
SHORT = ["s2t", "time3", "headn", "head3", "info", "snh", "badlim", "s3t"]
COUNT = {}
BLOCK = 40


def world(d, v=1):
    old = c19.DOCS
    c19.texts.cache_clear()
    c19.crx.cache_clear()
    c19.DOCS = VARIANTS[v]
    try:
        w = World(d)
        w.put(min(v - 1, 1))
        w.var = v
        return w
    finally:
        c19.DOCS = old
        c19.texts.cache_clear()


def _solo(q):
    op, v = q
    import georinex as g
    from .. import sched
    sched.start()
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        with quiet():
            w = world(Path(d) / "w", v)
            call(op, g, w)  # libraries initialised
            return sched.trace(lambda: call(op, g, w)[1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prepare(tier):
    if COUNT:
        return
    ops = [(o, v) for o in sorted(set(MIX + SHORT + ["load2"])) for v in VARIANTS]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for o, r in zip(ops, p.map(_solo, ops, chunksize=1)):
            COUNT[o] = r


def spaces(tier):
    from ..sched import points
    big = tier == "thorough"
    n = len(MIX)

    def pts(o, first):
        return points(COUNT[o, 1][0], first)

    def A():
        for i, a in enumerate(MIX if big else QUICK):
            for j in range(n) if big else (MIX.index(a),):
                b = MIX[j]
                p = pts(a, (None if len(COUNT[a, 1][0]) < 1500 else 3) if big and a == b else 1)
                for v in (1, 2, 3) if a == b and big else (2, 3) if a == b or (i + j) % 2 else (2,):  # 1: the same files
                    if v == 3 and not big:
                        p = pts(a, 0)
                    for k in range(0, len(p), BLOCK):
                        yield {"a": a, "b": b, "v": v, "k": p[k : k + BLOCK]}
    yield ("one preemption", A())

    def B():
        for a, b in product(SHORT + (["timex", "timen", "headx", "sp3", "bad"] if big else []), repeat=2):
            pa, pb = pts(a, 2 if big else 1), points(COUNT[b, 2][0], 2 if big else 1)
            if not big and (a != b and (SHORT.index(a) - SHORT.index(b)) % len(SHORT) != 1 or len(pa) * len(pb) > 17000):
                continue
            for k in pa:
                yield {"a": a, "b": b, "v": 2, "k": [k], "m": pb}
    yield ("two preemptions", B())

    def C():  # three threads: two preempted
        for a, b in product(["info", "badlim"] if not big else ["s2t", "info", "headn", "snh", "badlim"], repeat=2):
            pb = points(COUNT[b, 2][0], 1)
            for k in pts(a, 1):
                yield {"a": a, "b": b, "c": "s3t" if not big else "loadx", "v": 2, "k": [k], "m": pb}
    yield ("three threads", C())


def run(case, ctx):
    import georinex as g
    from .. import sched
    sched.start()
    wa = world(ctx.path("wa"))
    wb = wa if case["v"] == 1 and case["a"][0] != "s" else world(ctx.path("wb"), case["v"])
    wc = world(ctx.path("wc")) if "c" in case else None
    args, disk = wa.args(), wa.disk()
    a, b = case["a"], case["b"]
    n = trans = 0
    seen = set()
    blocked = 0
    for k in case["k"]:
        for m in case["m"] if "m" in case else (None,):
            A = sched.Agent(lambda: call(a, g, wa)[1], [k])
            B = sched.Agent(lambda: call(b, g, wb)[1], [m] if m else [])
            C = sched.Agent(lambda: call(case["c"], g, wc)[1]) if wc else None
            ok = A.resume(5)
            if not A.done:
                n += 1
            ok = B.resume()
            if C:
                C.resume()
            if not ok:  # it waits for something that A holds
                blocked += 1
                A.free = B.free = True
            A.resume(5)
            if not ok:
                B.back.acquire(timeout=60)
            elif not B.done:
                B.resume(5)
            for T in (A, B, C):
                if T and not T.done and not T.back.acquire(timeout=60):
                    raise Violation(f"{a} preempted at line event {k} ({A.where}) by {b}: does not finish")
            seen.add(A.where)
            trans += 2 + bool(m)
            for who, op, T, w in (("the preempted", a, A, wa), ("the preempting", b, B, wb), ("the third", case.get("c"), C, wc)):
                if T and T.result != COUNT[op, w.var][1]:
                    where = f"{a} preempted at {A.where} (line event {k}) by {b}" + (f", which is preempted at {B.where} (line event {m})" if m else "")
                    raise Violation(f"{where}: result of {who} {op} differs: {first_diff(T.result, COUNT[op, w.var][1])}")
    if wa.args() != args or wa.disk() != disk:
        raise Violation(f"{a} preempted by {b}: arguments or files were changed")
    return Obs(digest((a, b, case["k"], sorted(map(str, seen)))), transitions=trans, states=len(seen), execs=max(trans // 2, 1), trivial=not n)
