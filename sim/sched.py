"""Deterministic scheduler for caller threads.

Real threads, but exactly one holds the baton.  A trace function counts the
source lines executed inside the code under test; before each line the
scheduler may hand the baton over, if the line starts a statement (the
interpreter does not switch threads inside one that makes no call).  All hand-overs are either an explicit list
of (step, thread) pairs or derived from a seed, and are recorded.
"""
import ast
import random
import sys
import threading
import time

from sim.util import Violation

_RealLock = threading.Lock
_RealRLock = threading.RLock
_SRC = None
_current = threading.local()
STALL = 20.0


class Stalled(Exception):
    pass


class _SimLock:
    """Locks created by the code under test yield the baton instead of blocking."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = getattr(_current, "sched", None)
        if s is None or not blocking:
            return self._l.acquire(blocking, timeout)
        n = 0
        while not self._l.acquire(False):
            n += 1
            if timeout is not None and timeout >= 0 and n > 50:
                return False
            s.block()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


_stmt = {}


def _statement(path):
    """Line -> first line of the innermost statement (or its header) it belongs to."""
    if path not in _stmt:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        m = {}
        for n in ast.walk(tree):  # outer statements come first
            if isinstance(n, ast.stmt):
                for k in range(n.lineno, (n.end_lineno or n.lineno) + 1):
                    m[k] = n.lineno
        _stmt[path] = m
    return _stmt[path]


def install(src):
    """Seam for locks; call before the code under test is imported."""
    global _SRC
    if _SRC is not None:
        return
    _SRC = src

    def lock():
        mine = sys._getframe(1).f_code.co_filename.startswith(src)
        return _SimLock(_RealLock()) if mine else _RealLock()

    def rlock():
        mine = sys._getframe(1).f_code.co_filename.startswith(src)
        return _SimLock(_RealRLock()) if mine else _RealRLock()

    threading.Lock = lock
    threading.RLock = rlock


class Sched:
    """spec: {"seed": int, "permille": int} or {"switches": [[step, thread], ...]}"""

    def __init__(self, spec, n, max_steps=400_000):
        self.n = n
        self.spec = spec
        self.step = 0
        self.max_steps = max_steps
        self.rng = random.Random(spec.get("seed", 0))
        self.pm = spec.get("permille", 0)
        self.explicit = None
        if spec.get("switches") is not None:
            self.explicit = {int(a): int(b) for a, b in spec["switches"]}
        self.done = [False] * n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.taken = []
        self.where = []
        self.cur = 0
        self.finished = threading.Event()
        self.last = time.time()
        self.free = False
        self.blocked = 0
        self.lock_waits = 0
        self.stalled = False

    def alive(self):
        return [i for i in range(self.n) if not self.done[i]]

    def _choose(self, me):
        if self.explicit is not None:
            t = self.explicit.get(self.step)
            if t is None or t >= self.n or self.done[t]:
                return me
            return t
        if self.pm and self.rng.random() * 1000 < self.pm:
            return self.rng.choice(self.alive())
        return me

    def _switch(self, me, to):
        self.taken.append([self.step, to])
        self.cur = to
        self.sem[to].release()
        self._wait(me)

    def _wait(self, me):
        if self.free:
            return
        self.sem[me].acquire()

    def yield_point(self, me, frame):
        if self.free:
            return
        self.step += 1
        self.last = time.time()
        if self.step > self.max_steps:
            return
        to = self._choose(me)
        if to != me:
            self.where.append((frame.f_code.co_name, frame.f_lineno))
            self._switch(me, to)

    def block(self):
        """The current thread waits for a lock of the code under test."""
        me = _current.idx
        self.lock_waits += 1
        self.step += 1
        others = [i for i in self.alive() if i != me]
        if not others or self.lock_waits > 20000:
            raise Stalled("deadlock: every simulated thread waits for a lock")
        to = others[(others.index(self.cur) + 1) % len(others)] if self.cur in others else others[self.step % len(others)]
        self._switch(me, to)

    def _tracer(self, me):
        src = _SRC

        def glob(frame, event, arg):
            path = frame.f_code.co_filename
            if not path.startswith(src):
                return None
            stmt = _statement(path)
            last = 0

            def local(frame, event, arg):
                nonlocal last
                if event == "line":
                    n = stmt.get(frame.f_lineno)
                    if n != last:
                        last = n
                        self.yield_point(me, frame)
                return local

            return local

        return glob

    def run(self, fns):
        """Run one callable per thread; returns [(value, exception)]."""
        res = [None] * self.n

        def body(i):
            _current.sched, _current.idx = self, i
            self._wait(i)
            sys.settrace(self._tracer(i))
            try:
                res[i] = (fns[i](), None)
            except Exception as e:  # noqa: BLE001
                e.__traceback__ = None
                res[i] = (None, e)
            finally:
                sys.settrace(None)
                _current.sched = None
                self.done[i] = True
                rest = self.alive()
                if not rest:
                    self.finished.set()
                elif not self.free:
                    to = rest[0]
                    if self.explicit is not None:
                        t = self.explicit.get(self.step + 1)
                        to = t if t in rest else rest[0]
                    elif self.pm:
                        to = self.rng.choice(rest)
                    self.step += 1
                    self.taken.append([self.step, to])
                    self.cur = to
                    self.sem[to].release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        first = 0
        if self.explicit is not None:
            first = self.explicit.get(0, 0)
        elif self.pm:
            first = self.rng.randrange(self.n)
        if first >= self.n:
            first = 0
        self.taken.append([0, first])
        self.cur = first
        self.last = time.time()
        self.sem[first].release()
        while not self.finished.wait(0.5):
            if time.time() - self.last > STALL:
                self.stalled = True
                self.free = True
                for s in self.sem:
                    s.release()
                if not self.finished.wait(STALL):
                    raise Violation("deadlock", "threads do not finish")
        for t in ts:
            t.join(5)
        return res
