"""Deterministic thread scheduler.

Real threads run the real code, but exactly one at a time: each parks on its
own lock and the simulator decides who is released.  A thread may be switched
out at every line (optionally every bytecode) of the code under test, at every
device access and at every lock operation.  The schedule is a list of segments
[thread, steps]; it is drawn from a strategy, or replayed.
"""
import _thread
import gc
import threading
import time

from . import core
from .core import StepBudget

_allocate = _thread.allocate_lock
_ident = _thread.get_ident


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is cut short."""


class Task:
    __slots__ = ('tid', 'gate', 'ctx', 'state', 'body', 'error', 'waiting', 'ident', 'steps')

    def __init__(self, tid, body):
        self.tid = tid
        self.gate = _allocate()
        self.gate.acquire()
        self.ctx = None
        self.state = 'ready'
        self.body = body
        self.error = None
        self.waiting = None
        self.ident = None
        self.steps = 0


_current = None      # the scheduler in charge, if any


class Sched:
    def __init__(self, world, bodies, strategy, max_steps=2_000_000):
        self.w = world
        self.tasks = [Task(i, b) for i, b in enumerate(bodies)]
        self.by_ident = {}
        self.strategy = strategy
        self.left = 0
        self.current = None
        self.clock = 0
        self.trace = []            # executed segments
        self.seg = 0
        self.max_steps = max_steps
        self.aborting = None
        self.quiet = False
        self.main = _allocate()
        self.main.acquire()
        self.switches = 0
        self.kinds = {}

    # -- time -----------------------------------------------------------------
    def tick(self):
        self.clock += 1
        return self.clock

    # -- scheduling -----------------------------------------------------------
    def ready(self):
        return [t.tid for t in self.tasks if t.state == 'ready']

    def choose(self):
        tid, n = self.strategy.next(self.ready(), self.current)
        self.left = n
        return tid

    def note_segment(self):
        if self.current is not None and self.seg:
            if self.trace and self.trace[-1][0] == self.current:
                self.trace[-1][1] += self.seg
            else:
                self.trace.append([self.current, self.seg])
        self.seg = 0

    def yield_point(self, kind):
        if self.quiet:
            return
        t = self.by_ident.get(_ident())
        if t is None:
            return
        if self.aborting is not None:
            raise SimAbort()
        self.clock += 1
        self.seg += 1
        t.steps += 1
        if self.clock > self.max_steps:
            self.abort(('no-progress', 'the threads executed more than %d steps' % self.max_steps))
        self.left -= 1
        if self.left > 0:
            return
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        tid = self.choose()
        if tid != t.tid:
            self.switch(t, tid)

    def switch(self, me, tid):
        self.note_segment()
        self.switches += 1
        me.ctx = self.w.ctx
        nxt = self.tasks[tid]
        self.current = tid
        self.w.ctx = nxt.ctx
        nxt.gate.release()
        me.gate.acquire()
        if self.aborting is not None:
            raise SimAbort()

    def abort(self, why):
        if self.aborting is None:
            self.aborting = why
        raise SimAbort()

    def block(self, lock):
        """The running thread waits for a lock."""
        t = self.by_ident[_ident()]
        t.state = 'blocked'
        t.waiting = lock
        self.seg += 1          # not at a yield point
        r = self.ready()
        if not r:
            t.state = 'ready'
            self.abort(('deadlock', 'every unfinished thread waits for a lock'))
        tid = self.choose()
        self.switch(t, tid)

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == 'blocked' and t.waiting is lock:
                t.state = 'ready'
                t.waiting = None

    def finish(self, t):
        t.state = 'done'
        self.seg += 1
        self.note_segment()
        r = self.ready()
        if self.aborting is not None:
            for o in self.tasks:
                if o.state == 'blocked':
                    o.state = 'ready'
            r = self.ready()
        if r:
            tid = r[0] if self.aborting is not None else self.choose()
            nxt = self.tasks[tid]
            self.current = tid
            self.w.ctx = nxt.ctx
            nxt.gate.release()
        elif any(o.state == 'blocked' for o in self.tasks):
            if self.aborting is None:
                self.aborting = ('deadlock', 'every unfinished thread waits for a lock')
            for o in self.tasks:
                if o.state == 'blocked':
                    o.state = 'ready'
                    self.current = o.tid
                    o.gate.release()
                    break
        else:
            self.main.release()

    def thread_main(self, t):
        t.ident = _ident()
        self.by_ident[t.ident] = t
        t.gate.acquire()
        try:
            if self.aborting is None:
                t.body(t)
        except SimAbort:
            pass
        except BaseException as e:        # a mistake of the harness
            t.error = e
            if self.aborting is None:
                self.aborting = ('harness', repr(e))
        finally:
            self.finish(t)

    def run(self):
        global _current
        _current = self
        self.w.sched = self
        collecting = gc.isenabled()
        gc.disable()
        try:
            for t in self.tasks:
                _thread.start_new_thread(self.thread_main, (t,))
            while len(self.by_ident) < len(self.tasks):
                time_sleep(0)
            tid = self.choose()
            self.current = tid
            self.w.ctx = self.tasks[tid].ctx
            self.tasks[tid].gate.release()
            self.main.acquire()
        finally:
            self.w.sched = None
            self.w.ctx = None
            _current = None
            if collecting:
                gc.enable()
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return self


time_sleep = time.sleep


# -- strategies -------------------------------------------------------------------

class Replay:
    """Follow recorded segments; afterwards run the lowest thread."""

    def __init__(self, segments):
        self.segments = [list(s) for s in segments]

    def next(self, ready, current):
        while self.segments:
            tid, n = self.segments.pop(0)
            if tid in ready and n > 0:
                return tid, n
        return ready[0], 1 << 60


class RandomWalk:
    """Short random segments; mean length differs per run."""

    def __init__(self, rng, mean):
        self.rng = rng
        self.mean = mean

    def next(self, ready, current):
        n = 1 + int(self.rng.expovariate(1.0 / self.mean)) if self.mean > 1 else 1
        return self.rng.choice(ready), n


class Preempt:
    """Threads run to completion in a random order, except for a few preemptions
    at random points, where another thread takes over (few-preemption schedules
    find most atomicity bugs)."""

    def __init__(self, rng, total, k, spread):
        self.rng = rng
        self.points = [rng.randint(1, max(2, total)) for _ in range(k)]
        self.spread = spread

    def next(self, ready, current):
        rng = self.rng
        others = [t for t in ready if t != current] or ready
        tid = rng.choice(others)
        if self.points:
            n = self.points.pop(0)
            if rng.random() < 0.3:
                n = rng.randint(1, self.spread)
            return tid, n
        return tid, 1 << 60


class Priority:
    """PCT: fixed random priorities, lowered at a few random steps."""

    def __init__(self, rng, n, total, depth):
        self.rng = rng
        self.prio = list(range(n))
        rng.shuffle(self.prio)
        self.gaps = sorted(rng.randint(1, max(2, total)) for _ in range(depth))
        self.gaps = [b - a for a, b in zip([0] + self.gaps, self.gaps)]
        self.low = -1

    def next(self, ready, current):
        if current is not None and current in ready and self.started:
            self.prio[current] = self.low
            self.low -= 1
        self.started = True
        tid = max(ready, key=lambda t: self.prio[t])
        n = max(1, self.gaps.pop(0)) if self.gaps else 1 << 60
        return tid, n

    started = False


class RoundRobin:
    def __init__(self, n):
        self.n = n

    def next(self, ready, current):
        later = [t for t in ready if current is not None and t > current]
        return (later or ready)[0], self.n


class Aimed:
    """Given first segments, then whole threads in a random order."""

    def __init__(self, rng, segments):
        self.rng = rng
        self.segments = [list(s) for s in segments]

    def next(self, ready, current):
        while self.segments:
            tid, n = self.segments.pop(0)
            if tid in ready:
                return tid, n
        return self.rng.choice(ready), 1 << 60


def make_strategy(rng, nthreads, total, aim=None):
    """total: steps the threads take in all when run alone."""
    if aim:
        return 'aimed', Aimed(rng, aim)
    r = rng.random()
    if r < 0.35:
        return 'random', RandomWalk(rng, rng.choice((1, 2, 5, 15, 40, 120)))
    if r < 0.75:
        return 'preempt', Preempt(rng, max(2, total // nthreads), rng.randint(1, 6),
                                  rng.choice((3, 10, 30)))
    if r < 0.92:
        return 'pct', Priority(rng, nthreads, total, rng.randint(1, 4))
    return 'rr', RoundRobin(rng.choice((1, 2, 3, 7)))


# -- locks the code under test may create ---------------------------------------------

class SimLock:
    def __init__(self):
        self._l = _allocate()
        self._by = None

    def acquire(self, blocking=True, timeout=-1):
        if not self._acquire(blocking, timeout):
            return False
        self._by = me = _ident()
        core.locks_held[me] = core.locks_held.get(me, 0) + 1
        return True

    def _acquire(self, blocking, timeout):
        s = _current
        if s is None or _ident() not in s.by_ident:
            if self._l.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            if _single:
                raise StepBudget('waits for a lock that nobody is left to release')
            return self._l.acquire(blocking, timeout)
        s.yield_point('lock')
        while not self._l.acquire(False):
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        return True

    def release(self):
        self._l.release()
        if core.locks_held.get(self._by):
            core.locks_held[self._by] -= 1
        self._by = None
        s = _current
        if s is not None:
            s.unblock(self)
            if _ident() in s.by_ident:
                s.yield_point('lock')

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._l = _allocate()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        state = self._count, self._owner
        self._count = 0
        self._owner = None
        self._lock.release()
        return state

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self.__init__()


def _sleep(seconds):
    s = _current
    if s is not None and _ident() in s.by_ident:
        s.yield_point('sleep')
        return
    time_sleep(seconds)


_single = False


class seams:
    """Put locks and sleeping of the code under test behind the scheduler.

    single: there is one thread only, so that waiting for a lock it does not
    get at once is waiting forever."""

    def __init__(self, single=False):
        self.single = single

    def __enter__(self):
        global _single
        self.outer, _single = _single, self.single
        self.saved = (threading.Lock, threading.RLock, threading._allocate_lock,
                      threading._CRLock, time.sleep)
        threading.Lock = SimLock
        threading.RLock = SimRLock
        threading._allocate_lock = SimLock
        threading._CRLock = SimRLock
        time.sleep = _sleep

    def __exit__(self, *exc):
        global _single
        _single = self.outer
        (threading.Lock, threading.RLock, threading._allocate_lock,
         threading._CRLock, time.sleep) = self.saved
        return False
