"""Simulation kernel: loads the code under test, owns every fault and access seam.

Nothing here reads a clock, the environment's hash seed or any other source of
nondeterminism; every decision comes from the plan that is being executed.
"""
import _thread
import builtins
import errno
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import subprocess
import sys
import types

REPO = os.environ.get('DST_REPO', '/repo')
sys.dont_write_bytecode = True


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimIOError(OSError):
    """A simulated device error."""


class SimDeviceError(Exception):
    """The same from a device that reports errors as another exception."""


# IndexError and StopIteration end Python's own loops, so no device may use them
DEVICE_ERRORS = ('ValueError', 'TypeError', 'OverflowError', 'KeyError', 'AttributeError',
                 'RuntimeError', 'AssertionError', 'NotImplementedError', 'EOFError',
                 'TimeoutError', 'PermissionError', 'BufferError', 'ArithmeticError',
                 'ReferenceError', 'UnicodeError', 'LookupError', 'Exception')
_error_types = {}


def device_error(name, code, text):
    if name == 'OSError':
        return SimIOError(code, text)
    t = _error_types.get(name)
    if t is None:
        base = getattr(builtins, name)
        t = _error_types[name] = type('Sim' + name, (SimDeviceError,) + (
            () if base is Exception else (base,)), {})
    return t(text)


class SimNoMem(MemoryError):
    """A simulated allocation failure."""


class SimInterrupt(KeyboardInterrupt):
    """A simulated asynchronous interrupt."""


class StepBudget(BaseException):
    """The operation used more simulated steps than it may."""


class OutOfBounds(IndexError):
    """An access outside the memory that was handed to the library."""


INJECTED = (SimCrash, SimIOError, SimDeviceError, SimNoMem, SimInterrupt)


class HarnessError(Exception):
    """A mistake of the harness itself; never reported as a violation."""


# --------------------------------------------------------------------------
# loading the code under test

_ready = False
_codes = {}
FORCE_BUDGET = False     # count steps in every run (used to re-run one that hangs)


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles each module of the code under test once per process."""

    def get_code(self, fullname):
        c = _codes.get(fullname)
        if c is None:
            c = _codes[fullname] = importlib.machinery.SourceFileLoader.get_code(self, fullname)
        return c


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith('gcs.') or path is None:
            return None
        tail = fullname.rpartition('.')[2]
        for d in path:
            f = os.path.join(d, tail + '.py')
            if os.path.isfile(f):
                return importlib.util.spec_from_file_location(fullname, f,
                                                              loader=_Loader(fullname, f))
        return None


def _prepare():
    """Import the package once, with no git available."""
    global _ready
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    real = subprocess.Popen

    def no_git(*a, **k):
        raise FileNotFoundError(errno.ENOENT, 'simulated: no such program')
    sys.meta_path.insert(0, _Finder())
    subprocess.Popen = no_git
    try:
        try:
            import gcs  # noqa: F401
        except Exception:
            # the version machinery is decided elsewhere (C15); the storage
            # checks only need the package's modules
            _forget(True)
            pkg = types.ModuleType('gcs')
            pkg.__path__ = [os.path.join(REPO, 'gcs')]
            sys.modules['gcs'] = pkg
    finally:
        subprocess.Popen = real
    _ready = True


def _forget(package=False):
    for k in [k for k in sys.modules if k.startswith('gcs.') or (package and k == 'gcs')]:
        del sys.modules[k]


def load():
    """gcs.storage and gcs.slice_tools, executed anew: no state of an earlier
    simulated run is left, as in a new process."""
    from . import sched
    locks_held.clear()
    with sched.seams():         # locks made at import belong to the simulator too
        if not _ready:
            _prepare()
        _forget()
        storage = importlib.import_module('gcs.storage')
        slice_tools = importlib.import_module('gcs.slice_tools')
    root = os.path.realpath(REPO) + os.sep
    for m in (storage, slice_tools):
        if not os.path.realpath(m.__file__).startswith(root):
            raise HarnessError('loaded %s from %s' % (m.__name__, m.__file__))
    return storage, slice_tools


_is_gcs = {}
_PREFIX = None


def is_gcs_code(code):
    r = _is_gcs.get(code)
    if r is None:
        global _PREFIX
        if _PREFIX is None:
            _PREFIX = (os.path.join(REPO, 'gcs') + os.sep,
                       os.path.join(os.path.realpath(REPO), 'gcs') + os.sep)
        if code.co_filename in EXTRA:
            return True
        r = _is_gcs[code] = code.co_filename.startswith(_PREFIX)
    return r


EXTRA = set()        # files of a scratch project that count as code under test


# --------------------------------------------------------------------------
# per-operation context: counters, planned faults, what actually happened

class Ctx:
    __slots__ = ('acc', 'lines', 'acc_faults', 'line_faults', 'fired', 'reads',
                 'writes', 'budget', 'oob', 'dead', 'name')

    def __init__(self, faults=(), budget=None, name=''):
        self.acc = 0
        self.lines = 0
        self.acc_faults = {}
        self.line_faults = {}
        self.dead = False
        for f in faults:
            if f['at'] == 'acc':
                self.acc_faults[f['n']] = f['kind']
            elif f['at'] == 'line':
                self.line_faults[f['n']] = f['kind']
            elif f['at'] == 'dead':
                self.dead = True
        self.fired = []
        self.reads = []
        self.writes = []
        self.oob = []
        self.budget = budget
        self.name = name


locks_held = {}         # thread -> number of simulated locks it holds


class World:
    """Everything one simulated execution shares."""
    last = None              # the newest one of this process

    def __init__(self):
        self.ctx = None          # context of the operation now running, or None
        self.sched = None        # thread scheduler, if any
        self.where = None        # the line about to be executed
        self.box = False         # devices return a new object at every read
        self.device_error = 'OSError'    # what devices raise
        self.devices = {}
        self.h = hashlib.blake2b(digest_size=12)
        self.log_tail = []
        self.steps = 0           # simulated time: line + access events
        self.cost = 0            # line events in all, those of the observer too
        World.last = self
        self.fault_counts = {}
        self.probes = {}
        self.keep_log = False

    def log(self, *items):
        s = json.dumps(items, default=repr, separators=(',', ':'))
        self.h.update(s.encode())
        self.h.update(b'\n')
        if self.keep_log:
            self.log_tail.append(s)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # -- device seam -------------------------------------------------------
    def access(self, dev, rw, pos):
        """Called before each element access; may raise a fault.

        Returns the kind of a fault to raise after the access, or None."""
        if self.sched is not None:
            self.sched.yield_point('acc')
        ctx = self.ctx
        if ctx is None:
            return None
        ctx.acc += 1
        self.steps += 1
        if ctx.budget is not None and ctx.acc > ctx.budget:
            raise StepBudget('more than %d device accesses' % ctx.budget)
        (ctx.reads if rw == 'r' else ctx.writes).append((dev.name, pos))
        if ctx.dead:
            kind = 'err'
        else:
            kind = ctx.acc_faults.pop(ctx.acc, None)
        if kind is None:
            return None
        if rw == 'r' and kind.endswith('_applied'):
            kind = kind[:-8]
        label = {'err': 'device-%s-error' % ('read' if rw == 'r' else 'write-lost'),
                 'err_applied': 'device-write-error-applied',
                 'nomem': 'alloc-failure-at-access', 'enospc': 'device-full',
                 'crash': 'crash-before-access', 'crash_applied': 'crash-after-write'}[kind]
        ctx.fired.append((label, dev.name, pos, rw))
        self.count_fault(label)
        if kind.endswith('_applied'):
            return kind[:-8]
        self.raise_fault(kind)

    def raise_fault(self, kind):
        if kind == 'err':
            raise device_error(self.device_error, errno.EIO, 'simulated device error')
        if kind == 'enospc':
            raise device_error(self.device_error, errno.ENOSPC, 'simulated device full')
        if kind == 'nomem':
            raise SimNoMem('simulated allocation failure')
        if kind == 'intr':
            raise SimInterrupt('simulated interrupt')
        if kind == 'crash':
            raise SimCrash('simulated process death')
        raise HarnessError('unknown fault kind %r' % kind)

    def line(self):
        self.cost += 1
        ctx = self.ctx
        if self.sched is not None:
            self.sched.yield_point('line')
            ctx = self.ctx
        if ctx is None:
            return
        ctx.lines += 1
        self.steps += 1
        if ctx.budget is not None and ctx.lines > ctx.budget:
            raise StepBudget('more than %d lines executed' % ctx.budget)
        if ctx.line_faults:
            kind = ctx.line_faults.pop(ctx.lines, None)
            if kind is not None and kind != 'crash' and locks_held.get(_thread.get_ident()):
                # no Python code can guard a lock against an interrupt right
                # before its release: wait for the release
                ctx.line_faults.setdefault(ctx.lines + 1, kind)
            elif kind is not None:
                label = {'intr': 'interrupt-at-line', 'nomem': 'alloc-failure-at-line',
                         'crash': 'crash-at-line'}[kind]
                ctx.fired.append((label, None, None, None))
                self.count_fault(label)
                self.raise_fault(kind)


def fresh(v):
    """An equal, distinct object: what typed memory (array, ndarray) returns."""
    t = type(v)
    if t is int:
        return int(str(v))
    if t is float:
        return float(repr(v))
    if t is str:
        return ''.join(list(v))
    return v


class SimDevice:
    """Caller-supplied backing memory.

    alias=False: slices copy, like a list.  alias=True: slices are views of the
    same memory, like an ndarray or memoryview.  Negative or out-of-range
    positions are refused, as a device would."""
    __slots__ = ('world', 'name', 'cells', 'lo', 'n', 'alias')
    __hash__ = None

    def __init__(self, world, name, cells, alias=False, lo=0, n=None):
        self.world = world
        self.name = name
        self.cells = cells
        self.alias = alias
        self.lo = lo
        self.n = len(cells) - lo if n is None else n

    def __len__(self):
        return self.n

    def _check(self, i):
        if not 0 <= i < self.n:
            ctx = self.world.ctx
            if ctx is not None:
                ctx.oob.append((self.name, self.lo + i))
            raise OutOfBounds('device %s has no position %r' % (self.name, i))

    def _read(self, i):
        self._check(i)
        self.world.access(self, 'r', self.lo + i)
        v = self.cells[self.lo + i]
        return fresh(v) if self.world.box else v

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = i.indices(self.n)
            if self.alias and st == 1:
                return SimDevice(self.world, self.name, self.cells, True,
                                 self.lo + a, max(0, b - a))
            return [self._read(k) for k in range(a, b, st)]
        return self._read(i.__index__())

    def __setitem__(self, i, value):
        if isinstance(i, slice):
            ks = range(*i.indices(self.n))
            value = list(value)
            if len(value) != len(ks):
                raise ValueError('device slices cannot be resized')
            for k, v in zip(ks, value):
                self[k] = v
            return
        i = i.__index__()
        self._check(i)
        after = self.world.access(self, 'w', self.lo + i)
        self.cells[self.lo + i] = value
        if after:
            self.world.raise_fault(after)

    def __iter__(self):
        for k in range(self.n):
            yield self._read(k)

    def copy(self):
        return [self._read(k) for k in range(self.n)]

    def __eq__(self, other):
        if isinstance(other, (list, tuple, SimDevice)):
            if len(self) != len(other):
                return False
            return all(x == y for x, y in zip(self, other))
        return NotImplemented

    def __repr__(self):
        return repr([self._read(k) for k in range(self.n)])


# --------------------------------------------------------------------------
# line / instruction events of the code under test

MON_TOOL = 4
_world = None
_mon_ready = False


def _on_line(code, line):
    if not is_gcs_code(code):
        return sys.monitoring.DISABLE
    w = _world
    if w is not None:
        w.where = code, line
        w.line()


def _on_instr(code, offset):
    if not is_gcs_code(code):
        return sys.monitoring.DISABLE
    w = _world
    if w is not None and w.sched is not None:
        w.sched.yield_point('instr')


class monitored:
    """Context manager: deliver line (and instruction) events to a world."""

    def __init__(self, world, instructions=False):
        self.world = world
        self.instructions = instructions

    def __enter__(self):
        global _world, _mon_ready
        mon = sys.monitoring
        if not _mon_ready:
            mon.use_tool_id(MON_TOOL, 'dst')
            mon.register_callback(MON_TOOL, mon.events.LINE, _on_line)
            mon.register_callback(MON_TOOL, mon.events.INSTRUCTION, _on_instr)
            _mon_ready = True
        _world = self.world
        ev = mon.events.LINE
        if self.instructions:
            ev |= mon.events.INSTRUCTION
        mon.set_events(MON_TOOL, ev)
        return self

    def __exit__(self, *exc):
        global _world
        sys.monitoring.set_events(MON_TOOL, 0)
        _world = None
        return False


def from_gcs(exc):
    """Was the exception raised while code under test was running?"""
    tb = exc.__traceback__
    while tb is not None:
        if is_gcs_code(tb.tb_frame.f_code):
            return True
        tb = tb.tb_next
    return False


def chain_has_injected(exc):
    """Does the exception, or one it was raised from, come from a fault?"""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, INJECTED):
            return True
        todo += [e.__cause__, e.__context__]
    return False
