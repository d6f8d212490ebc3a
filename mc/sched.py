"""Controlled scheduler for threads: at most one runs; it is preempted at chosen lines of georinex."""
from __future__ import annotations
import sys
import threading
import types
from .core import REPO

TOOL = 4
_counters: dict = {}  # thread id -> Agent
_ready = False


class Agent:
    """a thread under control: runs until its line count reaches one of the stops, then waits to be resumed"""

    def __init__(self, fn, stops=()):
        self.fn, self.stops = fn, list(stops)
        self.n = 0
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.where = None
        self.free = False  # runs without being stopped any more
        self.trace = None
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def _run(self):
        self.go.acquire()
        _counters[threading.get_ident()] = self
        try:
            self.result = self.fn()
        finally:
            _counters.pop(threading.get_ident(), None)
            self.done = True
            self.back.release()

    def line(self, code, ln):
        self.n += 1
        if self.trace is not None:
            self.trace.append((code.co_filename, code.co_qualname, ln))
        if self.stops and self.n >= self.stops[0] and not self.free:
            self.stops.pop(0)
            self.where = f"{code.co_filename.rsplit('/', 1)[-1]}:{ln}"
            self.back.release()
            self.go.acquire()

    def resume(self, patience=0.4):
        """run up to its next stop or its end; False if it is blocked (waits for what another thread holds)"""
        if self.done:
            return True
        self.go.release()
        while True:
            n = self.n
            if self.back.acquire(timeout=patience):
                return True
            if self.n == n:
                return False


def _line(code, ln):
    a = _counters.get(threading.get_ident())
    if a is not None:
        a.line(code, ln)


def _codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _codes(c)


def start():
    """watch the lines of georinex' code objects"""
    global _ready
    if _ready:
        return
    m = sys.monitoring
    m.use_tool_id(TOOL, "mc")
    m.register_callback(TOOL, m.events.LINE, _line)
    src = str(REPO.resolve())
    seen = set()
    for mod in list(sys.modules.values()):
        f = getattr(mod, "__file__", None)
        if not (getattr(mod, "__name__", "").split(".")[0] == "georinex" and f):
            continue
        todo = list(vars(mod).values())
        for x in list(todo):
            if isinstance(x, type):
                todo += list(vars(x).values())
        for x in todo:
            x = getattr(x, "__wrapped__", x)
            x = getattr(x, "__func__", x)
            c = getattr(x, "__code__", None)
            if c is None and isinstance(x, property):
                c = getattr(x.fget, "__code__", None)
            if c is None or not c.co_filename.startswith(src) and "georinex" not in c.co_filename:
                continue
            for k in _codes(c):
                if k not in seen:
                    seen.add(k)
                    m.set_local_events(TOOL, k, m.events.LINE)
    _ready = True


def trace(fn):
    """-> lines executed, result"""
    a = Agent(fn)
    a.trace = []
    a.resume(60)
    return a.trace, a.result


def points(tr, first):
    """line events to preempt at: the first `first` executions of each line, and its last one; first=None: all"""
    if first is None:
        return list(range(1, len(tr) + 1))
    n, last, out = {}, {}, set()
    for i, x in enumerate(tr):
        n[x] = n.get(x, 0) + 1
        last[x] = i
        if n[x] <= first:
            out.add(i + 1)
    return sorted(out | {i + 1 for i in last.values()})
