"""Concurrency engine: threads of operations under the deterministic scheduler.

C07: read-only operations return what they return alone, in every schedule.
C08: every element is a linearizable register.
C12: every schedule makes progress (no deadlock, no unbounded waiting).
"""
import dis
import random
import sys
import types

from . import core, sched
from .core import Ctx, HarnessError, SimCrash, chain_has_injected
from .hist import Exec, Gen, Violation, from_nested_vals, same
from .histories import judged
from .model import indices, prod, real_index, resolve, select

PROFILES = {
    'C07': dict(kinds=('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM'),
                mix=dict(mk=2, slice=3, wrap=2, conv=2), nops=(1, 4), nmk=(1, 3), maxh=6,
                maxel=(4, 6, 8, 12, 24), maxdim=(1, 2, 2, 3, 3), punspec=0.0,
                pdev=(0.0, 0.5, 1.0), write=False),
    'C08': dict(kinds=('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM'),
                mix=dict(slice=4, wrap=3), nops=(0, 4), nmk=(1, 2), maxh=5,
                maxel=(2, 4, 6, 8, 12), maxdim=(1, 2, 2, 3), punspec=0.0,
                pdev=(0.0, 0.5, 1.0), write=True, psrc=0.3, overlap=True),
    'C12': dict(kinds=('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM'),
                mix=dict(slice=4, wrap=3, conv=1), nops=(0, 4), nmk=(1, 2), maxh=5,
                maxel=(4, 6, 8, 12), maxdim=(1, 2, 2, 3), punspec=0.0,
                pdev=(0.0, 0.5, 1.0), write=True, psrc=0.3, overlap=True),
}


MOST_STEPS = 250_000
SHORT = 'get', 'elements', 'slice', 'slice', 'conv'


def generate(prop, rng):
    p = dict(PROFILES[prop], plarge=0.03, largeel=(48, 80, 100))
    gaps = prop == 'C08' and rng.random() < 0.3
    if gaps:
        p.update(maxel=(6, 8, 12, 16), maxdim=(1, 1, 2), minaxis=rng.choice((3, 5)), mix=dict(slice=2, wrap=3),
                 nops=(0, 2), pdev=(0.5, 1.0))
    # many small arrays of different layouts: what is shared between arrays
    wide = not gaps and rng.random() < (0.2 if prop == 'C07' else 0.07)
    if wide:
        p.update(nmk=(2, 5), nops=(3, 10), maxh=16, maxel=(2, 4, 6, 8), plarge=0)
    g = Gen(rng, p)
    g.pspec = rng.choice((0.3, 0.6, 0.9, 1.0))
    setup = g.run()
    nthreads = rng.choice((2, 2, 2, 3, 3, 4))
    threads = []
    # threads concentrate on few arrays
    focus = sorted(g.h) if wide else sorted(rng.sample(sorted(g.h), min(len(g.h), rng.randint(1, 3))))
    for _ in range(nthreads):
        prog = []
        for _ in range(rng.randint(1, 6 if wide else 3)):
            op = thread_op(g, rng, p, focus, rng.choice(SHORT) if wide and rng.random() < 0.8 else None)
            if op:
                prog.append(op)
        if not prog:
            prog = [dict(op='elements', src=focus[0])]
        threads.append(prog)
    if rng.random() < 0.3:
        # the same operation everywhere: same state touched by all
        threads = [[dict(o) for o in threads[0]] for _ in threads]
    if gaps:
        threads = between(g, rng) or threads
    elif p['write'] and rng.random() < 0.15:
        threads = crossed(g, rng) or threads
    unique_values(threads)
    plan = dict(engine='conc', prop=prop, config=dict(
        cold=rng.random() < 0.5, instr=rng.random() < 0.2, order=False), ops=setup,
        threads=threads)
    if rng.random() < (0.4 if wide else 0.12):
        warm = []
        for _ in range(rng.choice((3, 5, 8, 15, 30, 60, 120, 250))):
            op = thread_op(g, rng, dict(p, write=False), sorted(g.h) if rng.random() < 0.7 else focus,
                           rng.choice(('slice', 'slice', 'slice', 'get', 'conv')))
            if op:
                warm.append(op)
        plan['warm'] = warm
    # alone: what every operation returns and how many steps it takes
    counts, at, lines = alone_counts(plan)
    if size(plan, counts) > MOST_STEPS:
        plan['config']['instr'] = False
        counts, at, lines = alone_counts(plan)
    while size(plan, counts) > MOST_STEPS:
        t, k = max(((t, k) for t, prog in enumerate(threads) for k in range(len(prog))),
                   key=lambda tk: counts.get(tk, (0, 0, 10))[2])
        threads[t][k] = dict(op='meta', src=focus[0])
        counts[t, k] = (0, 1, 10)
        at.pop((t, k), None)
        lines.pop((t, k), None)
    if rng.random() < 0.35:
        place(plan, rng, counts, prop)
    total = size(plan, counts)
    plan['strategy_seed'] = rng.randrange(1 << 48)
    plan['total'] = total
    r = rng.random()
    if r < 0.3:
        plan['aim'] = aim(plan, rng, counts, at)
    elif r < 0.55:
        plan['aim'] = aim_at_lines(plan, rng, counts, lines)
    return plan


def aim(plan, rng, counts, at):
    """The first segments of a schedule: a thread is stopped at a chosen step, often
    at a memory access, and others run."""
    threads = range(len(plan['threads']))
    length, points = {}, {}
    for t in threads:
        length[t], points[t] = 0, []
        for k in range(len(plan['threads'][t])):
            points[t] += [length[t] + n for n in at.get((t, k), ())]
            length[t] += counts.get((t, k), (0, 0, 10))[2]
    out = []
    past = {t: 0 for t in threads}
    victim = rng.choices(threads, [length[t] + 1 for t in threads])[0]
    for _ in range(rng.choice((1, 1, 2, 3))):
        later = [n for n in points[victim] if n > past[victim]]
        if later and rng.random() < 0.7:
            n = rng.choice(later) + rng.choice((-1, 0, 0, 1, 2))
        else:
            n = rng.randint(past[victim] + 1, max(past[victim] + 1, length[victim]))
        out.append([victim, max(1, n - past[victim])])
        past[victim] = n
        other = rng.choice([t for t in threads if t != victim])
        out.append([other, 1 << 60 if rng.random() < 0.6 else rng.randint(1, length[other] + 1)])
        if rng.random() < 0.3:
            victim = other
    return out


def aim_at_lines(plan, rng, counts, lines):
    """As aim(); the steps are chosen by the line of code they are at, each line the
    same however often it is executed, lines that touch shared state more often."""
    threads = range(len(plan['threads']))
    length, points = {}, {}
    for t in threads:
        length[t], points[t] = 0, {}
        for k in range(len(plan['threads'][t])):
            for where, ns in lines.get((t, k), {}).items():
                points[t].setdefault(where, []).extend(length[t] + n for n in ns)
            length[t] += counts.get((t, k), (0, 0, 10))[2]
    only = rng.random() < 0.5

    def point(t, past):
        c = [(w, [n for n in ns if n > past]) for w, ns in points[t].items()]
        c = [(w, ns) for w, ns in c if ns]
        if not c:
            return past + rng.randint(1, 50)
        ws = [w[1] for w, ns in c]
        if only and any(ws):
            c = [x for x in c if x[0][1]]
        else:
            c = [rng.choices(c, [1 + 10 * w for w in ws])[0]]
        ns = rng.choice(c)[1]
        return rng.choice((ns[0], ns[-1], rng.choice(ns)))
    out = []
    past = {t: 0 for t in threads}
    t = rng.choices(threads, [length[t] + 1 for t in threads])[0]
    for _ in range(rng.choice((1, 2, 3, 4))):
        n = max(past[t] + 1, point(t, past[t]))
        out.append([t, n - past[t]])
        past[t] = n
        t = rng.choice([o for o in threads if o != t])
        if rng.random() < 0.5:
            out.append([t, 1 << 60])
            past[t] = length[t]
            t = rng.choice([o for o in threads if o != t])
    return out


_shared = {}


def shared_lines(code, space):
    """Lines that touch module variables holding mutable objects, or set attributes."""
    r = _shared.get(code)
    if r is None:
        r = _shared[code] = set()
        for i in dis.get_instructions(code):
            line = i.positions.lineno
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'DELETE_ATTR') or (
                    i.opname == 'STORE_ATTR' and code.co_name != '__init__'):
                r.add(line)
            elif i.opname == 'LOAD_GLOBAL' and not isinstance(space.get(i.argval), QUIET) and \
                    i.argval in space and type(space[i.argval]) is not object:
                r.add(line)
    return r


QUIET = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, int, float, str,
         bytes, tuple, frozenset, type(None))


def between(g, rng):
    """One thread writes every other item of an axis, others write in between."""
    c = [i for i in sorted(g.h) if g.h[i].kind != 'Buffer' and g.writable(i)
         and all(g.h[i].shape) and max(g.h[i].shape, default=0) >= 3]
    if not c:
        return None
    dst = rng.choice(c)
    shape = g.h[dst].shape
    axis = rng.choice([k for k, n in enumerate(shape) if n >= 3])
    n = shape[axis]
    step = rng.choice((2, 2, 2, -2, 3, 1))
    start = rng.randrange(min(n, 3)) if step > 0 else n - 1 - rng.randrange(min(n, 3))
    stop = rng.choice((None, None, max(0, n - 1))) if step > 0 else None
    ix = [['s', start, stop, step] if k == axis else
          rng.choice((['n'], ['s', None, None, None], ['i', rng.randrange(shape[k])]))
          for k in range(len(shape))]
    sel, pairs, _ = select(ix, shape)
    taken = set(range(n)[start:stop:step])
    gaps = [k for k in range(n) if k not in taken] or list(range(n))
    threads = [[dict(op='set', src=dst, ix=ix, form='tuple',
                     val=from_nested_vals(sel, lambda: 0))]]

    def element():
        at = [rng.choice(gaps) if k == axis else rng.randrange(shape[k])
              for k in range(len(shape))]
        if rng.random() < 0.4 and any(i[axis] in gaps for i in g.h[dst].cells):
            at = rng.choice([i for i in sorted(g.h[dst].cells) if i[axis] in gaps])
        return [['i', k] for k in at]
    for _ in range(rng.choice((1, 1, 2))):
        prog = [dict(op='set', src=dst, ix=element(), form='tuple', val=0)]
        if rng.random() < 0.7:
            prog.append(dict(op='get', src=dst, ix=prog[0]['ix']))
        threads.append(prog)
    return threads


def crossed(g, rng):
    """Arrays assigned from one another, round in a circle."""
    c = [i for i in sorted(g.h) if g.h[i].kind != 'Buffer' and g.writable(i) and g.h[i].cells]
    if not c:
        return None
    first = rng.choice(c)
    ring = [i for i in c if g.h[i].shape == g.h[first].shape]
    rng.shuffle(ring)
    ring = ring[:3]
    threads = []
    for k, i in enumerate(ring):
        ix = [['n'] if rng.random() < 0.5 else ['s', None, None, None] for _ in g.h[i].shape]
        op = {'op': 'set', 'src': i, 'ix': ix, 'form': 'tuple', 'from': ring[k - 1]}
        threads.append([op] * rng.choice((1, 1, 2)))
    threads += [[dict(op=rng.choice(('elements', 'copy')), src=rng.choice(ring))]
                for _ in range(rng.choice((0, 1)) if len(ring) > 1 else 1)]
    return [[dict(op) for op in prog] for prog in threads]


def alone_counts(plan):
    probe = Alone(plan)
    judged(probe.run, lambda: 0)
    return dict(probe.counts), dict(probe.at), dict(probe.at_lines)


def size(plan, counts):
    return sum(counts.get((t, k), (0, 0, 10))[2]
               for t, prog in enumerate(plan['threads']) for k in range(len(prog)))


def unique_values(threads):
    n = 0
    for t, prog in enumerate(threads):
        for op in prog:
            if op['op'] == 'set' and 'from' not in op:
                def fresh(v):
                    nonlocal n
                    if isinstance(v, list):
                        return [fresh(x) for x in v]
                    n += 1
                    return 100000 * (t + 1) + n
                op['val'] = fresh(op['val'])


def thread_op(g, rng, p, focus, name=None):
    src = rng.choice(focus)
    m = g.h[src]
    names = ['get', 'get', 'elements', 'slice', 'slice', 'copy', 'conv', 'conv']
    if p['write']:
        names += ['set'] * 6
    else:
        names += ['equal', 'repr', 'str', 'eq', 'iterseq', 'meta']
    name = name or rng.choice(names)
    if name == 'get':
        if not all(m.shape):
            return None
        if m.kind == 'Buffer':
            ix = [['i', rng.randrange(m.shape[0])]]
        else:
            ix = g.index(m.shape, elem=True)
            if m.cells and rng.random() < 0.7:
                ix = [['i', k] for k in rng.choice(sorted(m.cells))]
        return dict(op='get', src=src, ix=ix)
    if name == 'slice':
        if m.kind == 'Buffer' or not m.shape:
            return dict(op='elements', src=src)
        return dict(op='slice', src=src, ix=g.index(m.shape), how=rng.choice(('index', 'elements')))
    if name == 'set':
        before = len(g.ops)
        r = g.op_set(dst=src) if all(m.shape) else None
        if r is None:
            return None
        op = g.ops.pop()
        assert len(g.ops) == before
        if 'src' in op:
            op['from'] = op.pop('src')
        op['src'] = op.pop('dst')
        return op
    if name == 'conv':
        before = len(g.ops)
        if g.op_conv(src) is None:
            return None
        op = g.ops.pop()
        for d in (g.h, g.base, g.meta):
            d.pop(op['out'])
        del op['out']
        if p['write'] or rng.random() < 0.7:
            op.pop('unspec', None)
        return op
    op = dict(op=name, src=src)
    if name in ('equal', 'eq'):
        same_shape = [i for i in sorted(g.h) if g.h[i].shape == m.shape]
        op['other'] = rng.choice(same_shape)
    return op


def place(plan, rng, counts, prop):
    for t, prog in enumerate(plan['threads']):
        for k, op in enumerate(prog):
            if rng.random() < 0.5 or (t, k) not in counts:
                continue
            acc, lines, _ = counts[t, k]
            r = rng.random()
            if r < 0.5 and acc:
                op['faults'] = [dict(at='acc', n=rng.randint(1, acc),
                                     kind=rng.choice(('err', 'nomem')))]
            elif lines:
                op['faults'] = [dict(at='line', n=rng.randint(1, lines),
                                     kind=rng.choice(('intr', 'nomem')))]


# -- what an operation does -----------------------------------------------------------

def action(ex, op):
    """-> f(): runs the operation on the real objects."""
    h = ex.h[op['src']]
    obj = h.obj
    name = op['op']
    if name == 'get':
        ri = real_index(op['ix'], 'scalar')
        return lambda: obj[ri]
    if name == 'elements':
        return lambda: list(obj.elements())
    if name == 'slice':
        ri = real_index(op['ix'])
        sel = resolve(op['ix'], h.m.shape)
        shape = tuple(len(s) for s in sel if not isinstance(s, int))
        if op['how'] == 'elements':
            return lambda: dict(obj[ri].elements())

        def f():
            v = obj[ri]
            return {i: v[i] for i in indices(shape)}
        return f
    if name == 'copy':
        return obj.copy
    if name == 'conv':
        to = op['to']
        kw = {'unspecified': op['unspec']} if 'unspec' in op else {}
        if to == 'DM':
            kw.update(dimensions=tuple(op['dims']), partitioning=tuple(op['part']),
                      storage_class=ex.cls(op['store']))
        if op['via'] == 'as':
            return lambda: getattr(obj, 'as_' + to)(**kw)
        return lambda: ex.cls(to).fromobject(obj, **kw)
    if name == 'equal':
        o = ex.h[op['other']].obj
        return lambda: obj.equal(o)
    if name == 'eq':
        o = ex.h[op['other']].obj
        return lambda: obj == o
    if name == 'repr':
        return lambda: repr(obj)
    if name == 'str':
        return lambda: str(obj)
    if name == 'meta':
        return lambda: (len(obj), tuple(obj.shape), obj.size, obj.is_full(), tuple(obj.strides))
    if name == 'iterseq':
        n = len(obj)

        def f():
            out = []
            for x in obj:
                out.append(x)
                if len(out) > n + 1:
                    break
            return out
        return f
    if name == 'set':
        ri = real_index(op['ix'], op.get('form'))
        val = ex.h[op['from']].obj if 'from' in op else op['val']

        def f():
            obj[ri] = val
        return f
    raise HarnessError(name)


def norm(index):
    return (index,) if isinstance(index, int) else tuple(index)


def canon(ex, r):
    """Plain data that identifies a result."""
    S = ex.storage.Storage
    if isinstance(r, S):
        els = [(norm(i), v) for i, v in r.elements()]
        full = {}
        for idx in indices(r.shape):
            full[idx] = r[idx if len(idx) > 1 else idx[0]]
        return ('array', type(r).__name__, tuple(r.shape), r.unspecified, els, full)
    if isinstance(r, dict):
        return {norm(k): canon(ex, v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [canon(ex, x) for x in r]
    return (type(r).__name__, r)


def build(plan, alone):
    """Fresh arrays for a run; checked against the model unless left cold."""
    cfg = dict(plan['config'])
    ex = Exec(dict(config=cfg, ops=plan['ops']))
    ex.run()
    for op in plan.get('warm', ()):
        if op['src'] in ex.h:
            try:
                action(ex, op)()
            except Exception:
                pass         # judged elsewhere
    return ex


class Alone:
    """Each operation on its own, on fresh arrays."""

    def __init__(self, plan):
        self.plan = plan
        self.expected = {}
        self.counts = {}
        self.at = {}
        self.at_lines = {}

    def run(self):
        plan = self.plan
        reads = not any(op['op'] == 'set' for prog in plan['threads'] for op in prog)
        if reads:
            ex = build(plan, True)
        for t, prog in enumerate(plan['threads']):
            for k, op in enumerate(prog):
                if not reads or plan['config'].get('cold'):
                    ex = build(plan, True)
                if op['src'] not in ex.h:
                    raise HarnessError('lost handle')
                with core.monitored(ex.w, plan['config'].get('instr')):
                    n = Stepper(ex.w)
                    ex.w.sched = n
                    sizes = [prod(h.m.shape) for h in ex.h.values()]
                    ctx = Ctx((), 10000 * (20 + sum(sizes)) + 500 * max(sizes) ** 2)
                    ex.w.ctx = ctx
                    try:
                        r = action(ex, op)()
                    finally:
                        ex.w.ctx = None
                        ex.w.sched = None
                self.expected[t, k] = canon(ex, r)
                self.counts[t, k] = (ctx.acc, ctx.lines, n.n)
                self.at[t, k] = n.at
                space = {}
                for m in (sys.modules['gcs.storage'], sys.modules['gcs.slice_tools']):
                    for v in list(vars(m).values()):
                        if isinstance(v, types.FunctionType) and v.__globals__ is vars(m):
                            space[v.__code__.co_filename] = vars(m)
                self.at_lines[t, k] = {
                    (n.ids[w], w[1] in shared_lines(w[0], space.get(w[0].co_filename, {}))): ns
                    for w, ns in n.lines.items()}


class Stepper:
    """Counts the yield points an operation passes."""

    def __init__(self, w):
        self.w = w
        self.n = 0
        self.at = []            # the points at memory accesses
        self.lines = {}         # line -> points before it is executed
        self.ids = {}

    def yield_point(self, kind):
        self.n += 1
        if kind == 'acc':
            self.at.append(self.n)
        elif kind == 'line':
            w = self.w.where
            ns = self.lines.get(w)
            if ns is None:
                ns = self.lines[w] = []
                self.ids[w] = '%s:%d' % (w[0].co_name, w[1])
            ns.append(self.n)


class Conc:
    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self.keep_log = keep_log
        self.ex = None
        self.sched = None
        self.hist = []
        self.opno = -1
        self.strategy = ''

    def fail(self, kind, detail):
        raise Violation(kind, detail, self.opno)

    def run(self):
        plan = self.plan
        self.alone = Alone(plan)
        self.alone.run()
        with sched.seams():
            self.ex = ex = build(plan, False)
            ex.w.keep_log = self.keep_log
            self.number_cells()
            for v in ex.w.devices.values():
                pass
            n = len(plan['threads'])
            if 'schedule' in plan:
                strategy, self.strategy = sched.Replay(plan['schedule']), 'replay'
            else:
                rng = random.Random(plan['strategy_seed'])
                self.strategy, strategy = sched.make_strategy(rng, n, plan.get('total', 100),
                                                              plan.get('aim'))
            bodies = [self.body(t) for t in range(n)]
            limit = 100_000 + 60 * plan.get('total', 1000)
            self.sched = s = sched.Sched(ex.w, bodies, strategy, limit)
            with core.monitored(ex.w, plan['config'].get('instr')):
                s.run()
        if s.aborting is not None:
            self.fail(*s.aborting)
        ex.w.log('schedule', s.trace, s.clock)
        self.judge()

    def number_cells(self):
        n = 0
        for hid in sorted(self.ex.h):
            m = self.ex.h[hid].m
            for idx in sorted(m.cells):
                c = m.cells[idx]
                if c.cid is None:
                    n += 1
                    c.cid = n

    def body(self, t):
        def run(task):
            s, w = self.sched, self.ex.w
            for k, op in enumerate(self.plan['threads'][t]):
                f = action(self.ex, op)
                ctx = Ctx(op.get('faults', ()))
                rec = dict(t=t, k=k, op=op, ctx=ctx, inv=s.tick())
                w.ctx = ctx
                try:
                    rec['res'] = ('ok', f())
                except sched.SimAbort:
                    raise
                except (Exception, SimCrash, core.SimInterrupt) as e:
                    rec['res'] = ('exc', e)
                w.ctx = None
                rec['ret'] = s.tick()
                s.quiet = True
                try:
                    if rec['res'][0] == 'ok' and op['op'] in ('copy', 'conv'):
                        try:
                            rec['canon'] = canon(self.ex, rec['res'][1])
                        except Exception as e:
                            rec['res'] = ('exc', e)
                            rec['late'] = True
                finally:
                    s.quiet = False
                self.hist.append(rec)
                w.log('op', t, k, rec['inv'], rec['ret'], rec['res'][0])
        return run

    # -- judging --------------------------------------------------------------------
    def judge(self):
        writes = any(op['op'] == 'set' for prog in self.plan['threads'] for op in prog)
        for rec in self.hist:
            self.judge_failure(rec)
        if writes:
            self.judge_registers()
        else:
            self.judge_reads()

    def name(self, rec):
        return 'thread %d operation %d (%s of h%d)' % (rec['t'], rec['k'], rec['op']['op'],
                                                       rec['op']['src'])

    def judge_failure(self, rec):
        if rec['res'][0] == 'ok':
            return
        e = rec['res'][1]
        if rec['ctx'].fired and chain_has_injected(e):
            return
        self.fail('interference', '%s raised %s: %s%s; alone it succeeds'
                  % (self.name(rec), type(e).__name__, str(e)[:200],
                     '' if not rec.get('late') else ' when its result was read'))

    def judge_reads(self):
        for rec in self.hist:
            if rec['res'][0] != 'ok':
                continue
            got = rec.get('canon')
            if got is None:
                got = canon(self.ex, rec['res'][1])
            want = self.alone.expected[rec['t'], rec['k']]
            if got != want:
                self.fail('interference', '%s returned %r; alone it returns %r'
                          % (self.name(rec), trunc(got), trunc(want)))
            if rec['ctx'].writes:
                self.fail('read-wrote', '%s wrote device position %r'
                          % (self.name(rec), rec['ctx'].writes[0]))
        self.ex.verify_all('changed-by-read')
        self.ex.verify_memory()

    def judge_registers(self):
        ex = self.ex
        cells = {}
        ops = {}        # cid -> list of (inv, ret, 'r'|'w', value)
        for hid in sorted(ex.h):
            for c in ex.h[hid].m.cells.values():
                if c.cid is not None:
                    cells[c.cid] = c

        def add(c, *item):
            ops.setdefault(c.cid, []).append(item)
        INF = float('inf')
        copies = []
        for rec in self.hist:
            op = rec['op']
            m = ex.h[op['src']].m
            inv, ret = rec['inv'], rec['ret']
            ok = rec['res'][0] == 'ok'
            where = self.name(rec)
            if op['op'] == 'set' and 'from' in op:
                sm = ex.h[op['from']].m
                for c, sc in pairs_of(m, sm, op):
                    copies.append(dict(c=c, sc=sc, u=sm.unspec, inv=inv, ret=ret, where=where,
                                       sure=ok and not c.maybe))
                continue
            if op['op'] == 'set':
                for c, v in targets(m, op):
                    sure = ok and not c.maybe
                    add(c, inv, ret if sure else INF, 'w' if sure else 'p', v, where)
                continue
            if not ok or op['op'] == 'meta':
                continue
            for idx, v in self.values_read(rec, m):
                c = m.cells.get(idx)
                if c is None:
                    if not same(v, m.unspec) and not same(v, op.get('unspec', m.unspec)):
                        self.fail('garbage', '%s read %r at %r, which is unspecified'
                                  % (where, v, idx))
                    continue
                add(c, inv, ret, 'r', v, where)
        end = self.sched.tick()
        for hid in sorted(ex.h):
            m = ex.h[hid].m
            got, err = ex.observe(ex.h[hid].obj, m, 'index')
            if err:
                self.fail('wrong-afterwards', 'h%d: %s' % (hid, err))
            for idx, v in got.items():
                c = m.cells.get(idx)
                if c is None:
                    if not same(v, m.unspec):
                        self.fail('garbage', 'h%d at %r reads %r afterwards' % (hid, idx, v))
                    continue
                add(c, end, end + 1, 'r', v, 'the final reading of h%d' % hid)
        if copies:
            self.judge_copies(copies, cells, ops, add)
        for cid in sorted(ops):
            err = register_check(cells[cid].v, ops[cid])
            if err:
                self.fail('not-linearizable', 'an element (initially %r): %s; history: %r'
                          % (cells[cid].v, err, ops[cid][:12]))
        ex.w.probe('registers', len(ops))

    def judge_copies(self, copies, cells, ops, add):
        """Assignments whose values are those other elements had. What such an
        assignment stored is known when it was read and can have no other origin:
        then it is an assignment of that value and a read of the source. Elements
        where that cannot be told are only checked for values from nowhere."""
        INF = float('inf')
        values = {cid: [c.v] for cid, c in cells.items()}
        for cid, items in ops.items():
            values[cid] += [it[3] for it in items if it[2] in 'wp']
        more = True
        while more:
            more = False
            for cp in copies:
                here = values[cp['c'].cid]
                for v in values[cp['sc'].cid] if cp['sc'] is not None else [cp['u']]:
                    if not any(same(v, x) for x in here):
                        here.append(v)
                        more = True
        into = {}
        for cp in copies:
            into.setdefault(cp['c'].cid, []).append(cp)
        unclear = set()
        for cid, cps in into.items():
            origins = [cells[cid].v] + [it[3] for it in ops.get(cid, ()) if it[2] in 'wp']
            for cp in cps:
                cp['may'] = values[cp['sc'].cid] if cp['sc'] is not None else [cp['u']]
                origins += cp['may']
            if len({repr(v) for v in origins}) != len(origins) or any(
                    a == b for k, a in enumerate(origins) for b in origins[:k]):
                unclear.add(cid)
        more = True
        while more:
            more = False
            for cid in sorted(into):
                if cid in unclear:
                    continue
                seen = [it[3] for it in ops.get(cid, ()) if it[2] == 'r']
                for cp in into[cid]:
                    got = [v for v in cp['may'] if any(same(v, x) for x in seen)]
                    if len(got) > 1:
                        self.fail('not-linearizable', '%s stored both %r and %r in one element'
                                  % (cp['where'], got[0], got[1]))
                    if got and 'got' not in cp:
                        cp['got'] = got[0]
                        more = True
                        if cp['sc'] is not None:
                            add(cp['sc'], cp['inv'], cp['ret'], 'r', got[0], cp['where'])
        for k, cp in enumerate(copies):
            if cp['c'].cid in unclear:
                continue
            if 'got' in cp or cp['sure']:
                add(cp['c'], cp['inv'], cp['ret'] if cp['sure'] else INF,
                    'w' if cp['sure'] else 'p', cp.get('got', 'copy %d' % k), cp['where'])
        for cid in unclear:
            for it in ops.pop(cid, ()):
                if it[2] == 'r' and not any(same(it[3], v) for v in values[cid]):
                    self.fail('not-linearizable', '%s read %r, which was never assigned to it'
                              % (it[4], it[3]))
        self.ex.w.probe('copied-elements', len(copies))
        self.ex.w.probe('copied-elements-unclear', len(unclear))

    def values_read(self, rec, m):
        op = rec['op']
        r = rec['res'][1]
        if op['op'] == 'get':
            return [(tuple(resolve(op['ix'], m.shape)), r)]
        if op['op'] == 'elements':
            out = [(norm(i), v) for i, v in r]
            if len({i for i, _ in out}) != len(out):
                self.fail('garbage', '%s yields an element twice' % self.name(rec))
            return out
        if op['op'] == 'slice':
            _, pairs, _ = select(op['ix'], m.shape)
            m2 = dict(pairs())
            return [(m2[norm(i)], v) for i, v in r.items()]
        full = rec['canon'][5]
        u = op.get('unspec', m.unspec)
        out = []
        for idx, v in full.items():
            if op['op'] == 'conv' and op['to'] == 'Buffer' and m.kind != 'Buffer':
                idx = nth_index(m.shape, idx[0])
            out.append((idx, v))
        return out


def nth_index(shape, n):
    out = []
    for d in range(len(shape) - 1, -1, -1):
        out.append(n % shape[d])
        n //= shape[d]
    return tuple(reversed(out))


def targets(m, op):
    from .model import nested_get
    sel = resolve(op['ix'], m.shape)
    if all(isinstance(s, int) for s in sel):
        c = m.cells.get(tuple(sel))
        return [(c, op['val'])] if c is not None else []
    _, pairs, _ = select(op['ix'], m.shape)
    out = []
    for ni, oi in pairs():
        c = m.cells.get(oi)
        if c is not None:
            out.append((c, nested_get(op['val'], ni)))
    return out


def pairs_of(m, sm, op):
    """(element of the destination, element of the source or None)"""
    _, pairs, _ = select(op['ix'], m.shape)
    out = []
    for ni, oi in pairs():
        c = m.cells.get(oi)
        if c is not None:
            out.append((c, sm.cells.get(tuple(ni))))
    return out


def register_check(initial, ops):
    """Is the history of one element linearizable?  Written values are unique.

    ops: (inv, ret, 'r' | 'w' | 'p', value, where); 'p' is a failed write, which
    may or may not have happened, at any time after its invocation.
    Gibbons and Korach: group operations by value; the groups' zones must not
    conflict."""
    clusters = {}
    NEG, INF = float('-inf'), float('inf')
    writes = {}
    for inv, ret, kind, v, where in ops:
        if kind in 'wp':
            if v in writes:
                raise HarnessError('written values must be unique')
            writes[v] = (inv, ret, kind)
    if initial in writes:
        raise HarnessError('initial value written again')
    writes[initial] = (NEG, NEG, 'w')
    for v, (inv, ret, kind) in writes.items():
        clusters[v] = [inv, ret, kind, False]     # latest start, earliest finish
    for inv, ret, kind, v, where in ops:
        if kind != 'r':
            continue
        if v not in writes:
            return '%s read %r, which was never assigned to it' % (where, v)
        winv = writes[v][0]
        if ret < winv:
            return '%s read %r before it was assigned' % (where, v)
        c = clusters[v]
        c[0] = max(c[0], inv)
        c[1] = min(c[1], ret)
        c[3] = True
    forward, backward = [], []
    for v, (start, finish, kind, seen) in clusters.items():
        if kind == 'p' and not seen:
            continue
        if finish < start:
            forward.append((finish, start, v))
        else:
            backward.append((start, finish, v))
    forward.sort()
    for (f1, s1, v1), (f2, s2, v2) in zip(forward, forward[1:]):
        if f2 < s1:
            return 'values %r and %r alternate' % (v1, v2)
    for s, f, v in backward:
        for f1, s1, v1 in forward:
            if f1 < s and f < s1:
                return 'value %r is lost while %r persists' % (v, v1)
    return None


def trunc(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def execute(plan, keep_log=False):
    c = Conc(plan, keep_log)
    v = judged(c.run, lambda: c.opno)
    out = dict(violation=v, steps=0, faults={}, probes={}, log=[], hash='')
    if c.ex is not None:
        w = c.ex.w
        w.log('end', v and v['kind'])
        out.update(hash=w.h.hexdigest(), faults=w.fault_counts, probes=w.probes, log=w.log_tail)
    if c.sched is not None:
        out['steps'] = c.sched.clock
        out['schedule'] = c.sched.trace
        out['interleaving'] = hash_trace(c.sched.trace)
        out['probes'] = dict(out['probes'], switches=c.sched.switches,
                             **{'strategy-' + c.strategy: 1})
        for k, n in c.sched.kinds.items():
            out['probes']['switch-at-' + k] = n
    return out


def hash_trace(trace):
    import hashlib
    return hashlib.blake2b(repr(trace).encode(), digest_size=8).hexdigest()


TIME_UNIT = 'scheduling points (lines, optionally bytecodes, device accesses, lock operations)'
COMPONENTS = dict(
    real='gcs.storage and gcs.slice_tools of the working tree in real threads, released one at '
         'a time',
    stub='the thread scheduler and locks, sleeping, the backing memory (SimDevice), the '
         'allocator and asynchronous interrupts')
ASSUMPTIONS = [
    'threads are switched between lines or bytecodes of the code under test and at device and '
    'lock operations; builtin operations are atomic, as under the global interpreter lock']
