"""Exhaustive explorer.

A check module defines
    ID, LEVEL, RULE, ASSUMPTIONS
    spaces(tier) -> [(name, iterable of cases)]      every case a small JSON value, simplest first
    run(case, ctx) -> Obs                            executes the real code on that case and compares
                                                     it with the reference model; raises Violation
Every case of every space is executed (no sampling).  Cases go to forked worker
processes in fixed chunks; a failing case is re-executed in fresh processes before
it is believed.
"""
from __future__ import annotations
import hashlib
import importlib
import io
import itertools
import json
import logging
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
POISON = -7.77123e88


class Violation(Exception):
    def __init__(self, msg, files=None):
        super().__init__(msg)
        self.msg = msg
        self.files = files or {}


class Obs:
    """what one execution covered"""

    def __init__(self, outcome, transitions=1, execs=1, states=1, trivial=False, known=None):
        self.outcome = outcome if isinstance(outcome, str) else digest(outcome)
        self.transitions = transitions
        self.execs = execs
        self.states = states
        self.trivial = trivial
        self.known = known or []


def digest(x) -> str:
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class Ctx:
    """scratch directory of one execution"""

    def __init__(self, base: str):
        self.base = base
        self.n = 0

    def sub(self, name: str) -> "Ctx":
        d = Path(self.base) / name
        d.mkdir(parents=True, exist_ok=True)
        return Ctx(str(d))

    def path(self, name: str) -> Path:
        return Path(self.base) / name

    def write(self, name: str, text: str | bytes) -> Path:
        p = self.path(name)
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(text, str):
            p.write_bytes(text.encode("utf-8"))
        else:
            p.write_bytes(text)
        return p


# ---------------------------------------------------------------- environment of the code under test
def own_nondeterminism():
    """numpy.empty may return any contents; make it return always the same, implausible ones."""
    import numpy as np

    if getattr(np, "_mc_owned", False):
        return
    real = np.empty

    def empty(*a, **k):
        r = real(*a, **k)
        try:
            if r.dtype.kind == "f" and r.dtype.itemsize == 8:
                r.fill(POISON)
        except Exception:
            pass
        return r

    np.empty = empty
    np._mc_owned = True


def import_target():
    """import georinex from REPO's working tree, with everything it needs"""
    src = str(REPO / "src")
    if src not in sys.path[:1]:
        sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import georinex
    import georinex.geo  # noqa: F401

    f = Path(georinex.__file__).resolve()
    if not str(f).startswith(str(REPO.resolve())):
        raise SystemExit(f"georinex imported from {f}, not from {REPO}")
    own_nondeterminism()
    return georinex


class quiet:
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


CASE_TIMEOUT = 120


def run_case(mod, case, base):
    """-> ("ok", Obs) | ("bad", msg, files) | ("err", text)"""
    d = tempfile.mkdtemp(prefix="case", dir=base)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    cwd = os.getcwd()
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = mod.run(case, Ctx(d))
        return ("ok", o)
    except Violation as v:
        return ("bad", v.msg, v.files)
    except CaseTimeout:
        return ("bad", "the call did not return (timeout)", {})
    except Exception:
        return ("err", traceback.format_exc())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _worker_init():
    os.environ["OMP_NUM_THREADS"] = "1"


def _run_chunk(arg):
    modname, base, chunk, known = arg
    mod = importlib.import_module(modname)
    agg = {"n": 0, "execs": 0, "trans": 0, "states": 0, "outcomes": set(), "triv": 0, "bad": [], "err": [],
           "keys": set()}
    for idx, space, case in chunk:
        r = run_case(mod, case, base)
        agg["n"] += 1
        agg["keys"].add(digest((space, json.dumps(case, sort_keys=True))))
        if r[0] == "ok":
            o = r[1]
            agg["execs"] += o.execs
            agg["trans"] += o.transitions
            agg["states"] += o.states
            agg["outcomes"].add(o.outcome)
            agg["triv"] += bool(o.trivial)
        elif r[0] == "bad":
            agg["bad"].append((idx, space, case, r[1], r[2]))
            if sig(space, case, r[1]) not in known:
                break  # the first one of a chunk is enough
        else:
            agg["err"].append((idx, space, case, r[1]))
            break
    return agg


def sig(space, case, msg) -> str:
    """identity of a known finding: the very input and what goes wrong with it"""
    return digest((space, json.dumps(case, sort_keys=True), re.sub(r"/[^ ':,]*", "/", msg)))


def load_known(pid):
    out = {}
    f = ROOT / "known_findings.txt"
    if f.is_file():
        for ln in f.read_text().splitlines():
            if ln.startswith("finding: ") and f"property={pid} " in ln:
                w = dict(x.split("=", 1) for x in ln.split()[1:4] if "=" in x)
                out[w.get("sig", "")] = ln.split(" ", 3)[-1] if "sig" in w else ln
    return out


def chunks(cases, n):
    it = iter(cases)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


class Workers:
    """one forked process per chunk; a process that dies (a crash in a C library) is noticed, not waited for"""

    def __init__(self, nproc):
        self.ctx = mp.get_context("fork")
        self.nproc = nproc
        self.run = {}  # connection -> (process, tag)

    def full(self):
        return len(self.run) >= self.nproc

    def start(self, tag, fn, arg):
        r, w = self.ctx.Pipe(False)

        def body():
            r.close()
            _worker_init()
            try:
                w.send(fn(arg))
            except BaseException:
                w.send({"lost": traceback.format_exc()})
            w.close()
            os._exit(0)

        p = self.ctx.Process(target=body)
        p.start()
        w.close()
        self.run[r] = (p, tag)

    def finished(self, timeout):
        from multiprocessing.connection import wait

        for r in wait(list(self.run), timeout):
            p, tag = self.run.pop(r)
            try:
                res = r.recv()
            except (EOFError, OSError):
                res = None
            r.close()
            p.join()
            yield tag, res

    def kill(self):
        for r, (p, _) in self.run.items():
            p.kill()
            p.join()
            r.close()
        self.run = {}


DIED = "the process crashed"


def in_fresh_process(modname, chunk):
    """run cases in one new process; -> list of results, None if it died"""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def body():
        mod = importlib.import_module(modname)
        base = tempfile.mkdtemp(prefix="mcre_")
        res = []
        try:
            for idx, space, case in chunk:
                x = run_case(mod, case, base)
                res.append(x[:2] if x[0] == "ok" else x)
                if x[0] == "bad":
                    break
        finally:
            shutil.rmtree(base, ignore_errors=True)
        w.send([(x[0], None) if x[0] == "ok" else x for x in res])
        w.close()
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    w.close()
    try:
        res = r.recv() if r.poll(600) else None
    except EOFError:
        res = None
    p.join(5)
    if p.is_alive():
        p.kill()
        p.join()
    elif res is None and p.exitcode and p.exitcode < 0:
        res = [("bad", f"{DIED} (signal {-p.exitcode})", {})]
    return res


def explore(modname: str, tier: str, deadline: float, nproc: int) -> int:
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.ID
    import_target()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    base = tempfile.mkdtemp(prefix=f"mc_{pid}_")
    known = load_known(pid)
    spaces = mod.spaces(tier)
    chunk_n = getattr(mod, "CHUNK", 40)
    tot = {"n": 0, "execs": 0, "trans": 0, "states": 0, "triv": 0}
    outcomes, keys, bad, err = set(), set(), [], []
    per_space: dict[str, int] = {}
    samples: list = []
    capped = False
    issued: dict[int, list] = {}

    def feed():
        nonlocal capped
        idx = 0
        for name, cases in spaces:
            cnt = 0

            def numbered():
                nonlocal idx, cnt
                for c in cases:
                    if cnt in (0, 17):
                        samples.append({"space": name, "case": c})
                    yield (idx, name, c)
                    idx += 1
                    cnt += 1

            for ch in chunks(numbered(), chunk_n):
                if time.time() - t0 > deadline:
                    capped = True
                    per_space[name] = cnt
                    return
                if stop:
                    return
                issued[ch[0][0]] = ch
                yield (modname, base, ch, set(known))
            per_space[name] = cnt

    stop = False
    pool = Workers(nproc)
    try:
        it = feed()
        done = False
        while True:
            while not done and not pool.full():
                try:
                    a = next(it)
                except StopIteration:
                    done = True
                    break
                pool.start(a[2][0][0], _run_chunk, a)
            if not pool.run:
                break
            for i, a in pool.finished(5):
                if a is None:  # find the case that kills it
                    for c in issued[i]:
                        r = in_fresh_process(modname, [c])
                        if r and r[-1][0] == "bad" and r[-1][1].startswith(DIED):
                            bad.append((*c, r[-1][1], {}))
                            break
                    else:
                        bad.append((*issued[i][-1], DIED + " in a sequence of cases", {}))
                    stop = done = True
                    continue
                if "lost" in a:
                    err.append((-1, "", None, a["lost"]))
                    stop = done = True
                    continue
                for k in ("n", "execs", "trans", "states", "triv"):
                    tot[k] += a[k]
                outcomes |= a["outcomes"]
                keys |= a["keys"]
                bad += a["bad"]
                err += a["err"]
                if a["err"] or any(sig(b[1], b[2], b[3]) not in known for b in a["bad"]):
                    stop = done = True
                if not a["bad"]:
                    issued.pop(i, None)
            if time.time() - t0 > deadline + 240:
                err.append((-1, "", None, "a worker hangs"))
                break
    finally:
        pool.kill()
        shutil.rmtree(base, ignore_errors=True)

    # ------------------------------------------------------------ believe only what recurs
    bad.sort(key=lambda b: b[0])
    confirmed, knownhits = [], []
    for b in bad:
        idx, space, case, msg, files = b
        s = sig(space, case, msg)
        if s in known:
            knownhits.append((s, msg))
            continue
        if confirmed:
            continue
        res = None
        hist = [(idx, space, case)]
        for _ in range(3):
            r = in_fresh_process(modname, hist)
            if r and r[-1][0] == "bad":
                res = (hist, r[-1][1], r[-1][2])
                break
        if res is None:  # needs what the same process did before it?
            start = max(k for k in issued if k <= idx)
            hist = [c for c in issued[start] if c[0] <= idx]
            for attempt in range(2):
                r = in_fresh_process(modname, hist)
                if r and r[-1][0] == "bad":
                    res = (hist, r[-1][1], r[-1][2])
                    break
        if res is None:
            err.append((idx, space, case, "violation did not recur on replay: " + msg))
        else:
            confirmed.append(res)
    for s, msg in sorted(set(knownhits)):
        print(f"KNOWN-FINDING: property={pid} {known[s]}")
    replay = None
    if confirmed:
        hist, msg, files = confirmed[0]
        replay = write_replay(pid, hist, msg, files)
    write_evidence(mod, tier, tot, outcomes, keys, per_space, samples, capped, stop, len(confirmed), len(knownhits),
                   time.time() - t0)
    if confirmed:
        print(f"{pid}: {msg}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if err:
        print(f"{pid}: check error\n{err[0][3]}\ncase {json.dumps(err[0][2])[:2000]}", file=sys.stderr)
        return 2
    print(f"{pid}: held; {tot['n']} cases, {tot['execs']} executions of the real code, {len(outcomes)} distinct "
          f"outcomes, {'capped by time' if capped else 'exhausted the bounded spaces'} "
          f"{per_space} {time.time() - t0:.0f}s")
    return 0


def write_replay(pid, hist, msg, files):
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    name = f"{pid}-{digest(json.dumps([h[2] for h in hist], sort_keys=True))}"
    p = d / f"{name}.json"
    p.write_text(json.dumps({"property": pid, "message": msg, "history": [list(h) for h in hist]}, indent=1))
    for k, v in files.items():
        (d / f"{name}.{k}").write_bytes(v.encode() if isinstance(v, str) else v)
    return p


def replay(modname, path):
    mod = importlib.import_module(modname)
    import_target()
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    j = json.loads(Path(path).read_text())
    r = in_fresh_process(modname, [tuple(h) for h in j["history"]])
    if r and r[-1][0] == "bad":
        print(r[-1][1])
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    if r and r[-1][0] == "err":
        print(r[-1][1], file=sys.stderr)
        return 2
    print("the property holds on this case")
    return 0


def write_evidence(mod, tier, tot, outcomes, keys, per_space, samples, capped, stopped, nviol, nknown, wall):
    lv = mod.LEVEL
    cov = {"exhaustive": not capped and not stopped, "spaces": per_space, "distinct_outcomes": len(outcomes),
           "samples": samples[:12], "capped_by_time": capped, "known_findings_hit": nknown}
    if lv == "model_checking":
        cov.update(states=tot["states"], transitions=tot["trans"], traces_validated_against_impl=tot["n"],
                   executions_of_implementation=tot["execs"], rule=mod.RULE)
    else:
        cov.update(evaluations=tot["execs"], distinct_nontrivial=len(keys) - tot["triv"], rule=mod.RULE)
    ev = {"property": mod.ID, "tier": tier, "seed": SEED, "level": lv, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    d = ROOT / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{mod.ID}.json").write_text(json.dumps(ev, indent=1, default=str))
