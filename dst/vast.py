"""Vast-array engine: arrays whose index space is far larger than what is stored.

Sparse arrays with a handful of elements in up to 10**40 places, and dense
arrays over devices that are populated as they are written.  The reference
model works with ranges and stored cells only, so that no operation on it
depends on the size of the index space.  Operations that the code decides to
do place by place are cut off and judged as nothing.
"""
import resource

from . import core, sched
from .core import Ctx, HarnessError, SimCrash, SimDevice, World, chain_has_injected
from .hist import Violation, same
from .model import Cell, c_strides, indices, nested_get, prod, real_index

# lines an operation may take before it is cut off (nothing is concluded)
ENOUGH = 400000

AXES = (1, 2, 3, 5, 17, 255, 256, 257, 1000, 32768, 46341, 65535, 65536, 65537, 10 ** 6,
        2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31 + 5, 2 ** 32 + 3, 10 ** 12, 2 ** 53 + 2)
EDGES = (127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
         2 ** 32, 2 ** 53)
SPARSE = ('COO', 'FlatCOO', 'CSR')
DENSE = ('Strided', 'DM')
READS = ('err', 'nomem', 'dead', 'intr@line', 'nomem@line')

PROFILES = {
    'C01': dict(mix=dict(set=12, get=6, slice=4, conv=1, copy=1), faults=('err', 'err_applied'),
                faultops=('set', 'get', 'slice'), rates=(0, 0, 0.2)),
    'C02': dict(kinds=('Strided', 'DM', 'DMS'), mix=dict(slice=10, set=8, get=2),
                faults=('dead', 'err'), faultops=('slice',), rates=(0, 0.5, 1)),
    'C03': dict(mix=dict(slice=7, conv=6, copy=3, set=9, get=1), faults=('err',),
                faultops=('slice', 'conv', 'copy'), rates=(0, 0.2)),
    'C04': dict(mix=dict(slice=6, conv=4, copy=2, get=4, elements=3, equal=2, set=1), faults=READS,
                faultops=('slice', 'conv', 'copy', 'get', 'elements', 'equal'), rates=(0.5, 1)),
    'C05': dict(mix=dict(set=14, slice=3, conv=1, copy=1),
                faults=READS + ('err_applied', 'enospc'), faultops=('set',), rates=(0.5, 1)),
    'C09': dict(kinds=SPARSE + ('COO', 'FlatCOO'), mix=dict(elements=12, slice=4, set=4, conv=2),
                faults=('err',), faultops=('elements',), rates=(0, 0.2)),
    'C10': dict(kinds=SPARSE + ('COO', 'FlatCOO'), mix=dict(conv=14, copy=4, set=4, slice=3, elements=2),
                faults=('err', 'nomem'), faultops=('conv', 'copy'), rates=(0, 0.3)),
    'C11': dict(mix=dict(set=10, get=4, slice=6, conv=2, copy=2, elements=1), faults=('err',),
                faultops=('set', 'slice'), rates=(0, 0.3), confine=True),
    'C13': dict(kinds=SPARSE, mix=dict(equal=14, meta=3, set=4, slice=3, conv=3, copy=3), faults=('err',),
                faultops=('equal',), rates=(0, 0.1)),
    'C14': dict(mix=dict(set=14, slice=8, copy=2), psrc=0.7, faults=('err',), faultops=('set',),
                rates=(0, 0.3)),
}


class Lazy:
    """Memory of any size; a position that was not written holds its default."""

    def __init__(self, n):
        self.n = n
        self.d = {}

    def __len__(self):
        return min(self.n, 2 ** 62)

    def default(self, pos):
        return pos % 1000003 + 5000000

    def __getitem__(self, pos):
        v = self.d.get(pos)
        return self.default(pos) if v is None else v[0]

    def __setitem__(self, pos, v):
        self.d[pos] = (v,)


class Base:
    """Elements: index -> Cell.  A dense one makes its cells when asked."""

    def __init__(self, shape, cells, lazy=None, home=None):
        self.shape = shape
        self.cells = cells
        self.lazy = lazy
        self.home = home         # dense: index -> (device, position)

    def cell(self, idx):
        c = self.cells.get(idx)
        if c is None and self.lazy is not None:
            h = self.home(idx)
            c = self.cells[idx] = Cell(self.lazy.default(h[1]), home=h)
        return c


class Arr:
    """A window of ranges on a base."""

    def __init__(self, kind, base, axes, unspec, groups=None):
        self.kind = kind
        self.base = base
        self.axes = axes         # per base axis: an int or a range
        self.unspec = unspec
        self.groups = groups     # DM: which own axes form which storage axis
        self.obj = None

    @property
    def free(self):
        return [d for d, a in enumerate(self.axes) if not isinstance(a, int)]

    @property
    def shape(self):
        return tuple(len(self.axes[d]) for d in self.free)

    @property
    def dense(self):
        return self.base.lazy is not None

    def inside(self, idx):
        """The base index of an own one."""
        out = list(self.axes)
        for d, k in zip(self.free, idx):
            out[d] = self.axes[d][k]
        return tuple(out)

    def outside(self, bidx):
        """The own index of a base one, or None."""
        out = []
        for a, k in zip(self.axes, bidx):
            if isinstance(a, int):
                if a != k:
                    return None
            elif k in a:
                out.append(a.index(k))
            else:
                return None
        return tuple(out)

    def cell(self, idx):
        return self.base.cell(self.inside(idx))

    def read(self, idx):
        c = self.cell(idx)
        return self.unspec if c is None else c.v

    def stored(self):
        """own index -> cell, in order (of a dense one: those looked at so far)"""
        out = {}
        for b, c in self.base.cells.items():
            i = self.outside(b)
            if i is not None:
                out[i] = c
        return dict(sorted(out.items()))

    def resolve(self, ix):
        """-> per own axis an int or a range of own positions"""
        out = []
        for d, n in enumerate(self.shape):
            it = ix[d] if d < len(ix) else ['n']
            out.append(range(n)[it[1]] if it[0] == 'i' else
                       range(n)[slice(*it[1:])] if it[0] == 's' else range(n))
        return out

    def window(self, sel):
        axes = list(self.axes)
        for d, s in zip(self.free, sel):
            axes[d] = axes[d][s] if isinstance(s, int) else axes[d][s.start:s.stop:s.step] \
                if s.start >= 0 and s.stop >= 0 else compose(axes[d], s)
        return axes

    def slice(self, ix):
        """-> (Arr, is it a live view)"""
        sel = self.resolve(ix)
        axes = self.window(sel)
        groups = None
        if self.kind == 'DM':
            left = [d for d, s in enumerate(sel) if not isinstance(s, int)]
            groups = [[left.index(d) for d in g if d in left] for g in self.groups]
            dropped = any(not g for g in groups)
            groups = [g for g in groups if g]
            if self.dense or not dropped:
                return Arr('DM', self.base, axes, self.unspec, groups), True
        elif self.kind == 'Strided':
            return Arr('Strided', self.base, axes, self.unspec), True
        view = Arr('view', self.base, axes, self.unspec)
        kind = self.kind
        if kind == 'CSR' and len(view.shape) != 2:
            kind = 'COO'
        return snapshot(kind, view, self.unspec, groups), False


def compose(r, s):
    """range r restricted to the positions in range s"""
    if not len(s):
        return r[0:0]
    a, step = r[s[0]], r.step * s.step
    return range(a, a + step * len(s), step)


def snapshot(kind, a, unspec, groups=None):
    cells = {i: Cell(unspec if c.v == a.unspec else c.v, maybe=c.v == a.unspec)
             for i, c in a.stored().items()}
    shape = a.shape
    return Arr(kind, Base(shape, cells), [range(n) for n in shape], unspec,
               groups if groups is None else [list(g) for g in groups])


# ==========================================================================
# plans

class Gen:
    def __init__(self, rng, p):
        self.rng = rng
        self.p = p
        self.h = {}
        self.ops = []
        self.n = 0
        self.val = 100

    def value(self, unspec):
        r = self.rng.random()
        self.val += 1
        if r < 0.04:
            return unspec
        if r < 0.10:
            return self.rng.choice((0, 1, 1.0, True, -1))
        return self.val if r < 0.9 else 'v%d' % self.val

    def coord(self, n, known):
        rng = self.rng
        r = rng.random()
        if r < 0.15:
            k = rng.choice((0, 1, n - 1, n - 2))
        elif r < 0.35 and known:
            k = rng.choice(known)
        elif r < 0.55 and known:
            k = rng.choice(known) + rng.choice((-1, 1, 2 ** 8, 2 ** 16, -2 ** 16, 2 ** 31, 2 ** 32,
                                                -2 ** 32, -256, 1000, 10))
        elif r < 0.75:
            k = rng.choice(EDGES) + rng.choice((0, 0, 1, -1))
        else:
            k = rng.randrange(n)
        return k if 0 <= k < n else rng.randrange(n)

    def mk(self):
        rng = self.rng
        kind = rng.choice(self.p.get('kinds', SPARSE + ('FlatCOO', 'COO', 'DMS') + DENSE))
        if kind == 'CSR':
            shape = [rng.choice((1, 2, 3, 17, 255, 257, 300)), rng.choice(AXES)]
        else:
            shape = [rng.choice(AXES) for _ in range(rng.choice((1, 2, 2, 2, 3, 3, 4)))]
            while kind in DENSE and prod(shape) > 2 ** 60:
                shape.remove(max(shape))       # no device is that large
        op = dict(op='mk', out=self.new(), kind=kind, shape=shape,
                  unspec=rng.choice((None, None, 0, -1)), dev=rng.random() < 0.7,
                  pre=rng.choice((0, 0, 1, 5)), post=rng.choice((0, 2)))
        if kind in ('DM', 'DMS'):
            dims = list(range(len(shape)))
            rng.shuffle(dims)
            cuts = sorted(rng.sample(range(1, len(dims)), rng.randint(0, len(dims) - 1)))
            cuts = [0] + cuts + [len(dims)]
            op['groups'] = [dims[a:b] for a, b in zip(cuts, cuts[1:])]
            op['store'] = rng.choice(('COO', 'FlatCOO'))
        if kind in DENSE:
            op['far'] = rng.choice((0, 0, 3, 2 ** 31, 2 ** 33))
        else:
            n = min(rng.choice((0, 1, 2, 4, 7, 12, 12, 20)), prod(shape))
            got = set()
            if len(shape) > 1 and shape[-1] > 60 and rng.random() < (0.4 if kind == 'CSR' else 0.07):
                # a few long rows with gaps
                n = 0
                lo = rng.choice((0, 0, 0, rng.randint(0, shape[-1] - 60)))
                wide = rng.randint(50, min(200, shape[-1] - lo))
                band = rng.random() < 0.5
                cut = 0
                keep = rng.choice((1, 1, 1, 0.97))
                for k in range(rng.randint(1, 3)):
                    if band:
                        # a row begins where another one ends
                        row = tuple(k % s for s in shape[:-1])
                        to = rng.randint(cut, wide)
                        cols = range(cut, to) if rng.random() < 0.7 else range(to, wide)
                        got |= {row + (lo + c,) for c in cols if rng.random() < keep}
                        cut = to
                        continue
                    row = tuple(self.coord(s, [i[d] for i in sorted(got)][-1:])
                                for d, s in enumerate(shape[:-1]))
                    got |= {row + (lo + c,) for c in rng.sample(range(wide), rng.randint(wide // 2, wide))}
            for _ in range(n):
                if got and rng.random() < 0.25:
                    # as far from another as some integer's range
                    cs = c_strides(tuple(shape))
                    f = sum(k * c for k, c in zip(rng.choice(sorted(got)), cs))
                    f = (f + rng.choice((1, -1)) * 2 ** rng.choice((8, 15, 16, 24, 31, 31, 32, 32, 53))
                         ) % prod(shape)
                    got.add(tuple(f // c % m for c, m in zip(cs, shape)))
                    continue
                got.add(tuple(self.coord(s, [i[d] for i in sorted(got)])
                              for d, s in enumerate(shape)))
            op['idx'] = [list(i) for i in sorted(got)]
            op['vals'] = [self.value(op['unspec']) for _ in got]
        self.put(op, model_mk(op)[0])

    def new(self):
        self.n += 1
        return self.n

    def put(self, op, a=None):
        self.ops.append(op)
        if a is not None:
            self.h[op['out']] = a

    def known(self, a):
        return [[i[d] for i in a.stored()] for d in range(len(a.shape))]

    def one(self, a):
        """An element index: often a stored one or a near miss."""
        st = list(a.stored())
        rng = self.rng
        if len(st) > 1 and rng.random() < 0.2:
            i = [rng.choice(st)[d] for d in range(len(st[0]))]
        elif st and rng.random() < 0.6:
            i = list(rng.choice(st))
            if rng.random() < 0.35:
                d = rng.randrange(len(i))
                i[d] = self.coord(a.shape[d], [k[d] for k in st])
        else:
            kn = self.known(a)
            i = [self.coord(n, kn[d]) for d, n in enumerate(a.shape)]
        return i

    def ix(self, a, small):
        """A slice; small: of at most two dozen places."""
        rng = self.rng
        one = self.one(a)
        kn = self.known(a)
        out = []
        room = 24
        whole = 0.9 if rng.random() < 0.3 else 0.3
        for d, n in enumerate(a.shape):
            k = one[d]
            r = rng.random()
            if r < (0.3 if whole < 0.5 or small else 0.05):
                out.append(['i', k - n if rng.random() < 0.2 else k])
                continue
            if not small and r < whole + 0.15:
                out.append(rng.choice((['n'], ['s', None, None, None], ['s', None, None, -1])))
                continue
            step = rng.choice((1, 1, 2, 3, 256, 65536, 2 ** 31, 2 ** 32))
            other = [x for x in kn[d] if x != k]
            if other and rng.random() < 0.5:
                step = abs(rng.choice(other) - k)
            left = k // step
            right = (n - 1 - k) // step
            if small:
                left = rng.randint(0, min(left, 2))
                right = rng.randint(0, max(0, min(right, room - 1 - left, 3)))
                room = max(1, room // (left + right + 1))
            elif rng.random() < 0.5:
                left = rng.randint(0, min(left, 5))
                right = rng.randint(0, right)
            lo, hi = k - left * step, k + right * step
            if rng.random() < 0.3:
                stop = lo - 1
                out.append(['s', hi, stop if stop >= 0 else None, -step])
            else:
                out.append(['s', lo, min(hi + rng.choice((1, step)), n), step])
                if small:
                    out[-1][2] = hi + 1
        if all(it[0] == 'i' for it in out):
            d = rng.randrange(len(out))
            out[d] = ['s', one[d], one[d] + 1, None]
        return out

    def pick(self, ok=lambda a: True):
        c = [i for i in sorted(self.h) if ok(self.h[i])]
        return self.rng.choice(c) if c else None

    def gen_set(self):
        rng = self.rng
        k = self.pick(assignable)
        if k is None:
            return
        a = self.h[k]
        op = dict(op='set', dst=k)
        if rng.random() < self.p.get('psrc', 0.15):
            return self.set_from(op, a)
        if rng.random() < 0.6:
            op['ix'] = [['i', i] for i in self.one(a)]
            op['val'] = self.value(a.unspec)
        else:
            op['ix'] = self.ix(a, True)
            sh = a.slice(op['ix'])[0].shape
            op['val'] = nested(sh, lambda i: self.value(a.unspec))
        self.put(op)

    def set_from(self, op, a):
        """Assign from an array of the shape of a slice: another slice, or the
        same elements in the opposite order."""
        rng = self.rng
        ix = self.ix(a, a.dense)
        sl = a.slice(ix)[0]
        if not sl.shape or 0 in sl.shape:
            return
        r = rng.random()
        src = self.pick(lambda b: b.shape == sl.shape and b.kind != 'CSR')
        if src is not None and r < 0.4:
            pass
        else:
            # a slice of the same array, shifted or reversed
            sx = []
            for it, s, n in zip(ix + [['n']] * len(a.shape), a.resolve(ix), a.shape):
                if isinstance(s, int):
                    sx.append(['i', self.coord(n, [s])])
                elif rng.random() < 0.5:
                    m = s[::-1]
                    sx.append(['s', m.start, m.stop if m.stop >= 0 else None, m.step])
                else:
                    by = rng.choice((1, -1, s.step, -s.step))
                    m = range(s.start + by, s.stop + by, s.step)
                    if not (0 <= m[0] < n and 0 <= m[-1] < n):
                        m = s
                    sx.append(['s', m.start, m.stop if m.stop >= 0 else None, m.step])
            so = dict(op='slice', out=self.new(), src=op['dst'], ix=sx)
            nm = a.slice(sx)[0]
            if nm.shape != sl.shape or a.kind == 'CSR' and nm.kind != 'CSR' and prod(a.shape) > 4000:
                return
            self.put(so, nm)
            src = so['out']
        self.put(dict(op, ix=ix, src=src))

    def gen_get(self):
        k = self.pick(lambda a: a.shape and 0 not in a.shape)
        if k is not None:
            self.put(dict(op='get', src=k, ix=[['i', i] for i in self.one(self.h[k])]))

    def gen_slice(self):
        k = self.pick(lambda a: a.shape and 0 not in a.shape)
        if k is None:
            return
        a = self.h[k]
        ix = self.ix(a, False)
        new = a.slice(ix)[0]
        if a.kind == 'CSR' and len(new.shape) != 2 and prod(a.shape) > 4000:
            return
        self.put(dict(op='slice', out=self.new(), src=k, ix=ix), new)

    def gen_conv(self):
        to = self.rng.choice(('COO', 'FlatCOO', 'CSR', 'COO', 'FlatCOO'))
        k = self.pick(lambda a: convertible(a, to))
        if k is not None:
            self.put(dict(op='conv', out=self.new(), src=k, to=to),
                     snapshot(to, self.h[k], self.h[k].unspec))

    def gen_copy(self):
        k = self.pick(lambda a: a.kind in SPARSE)
        if k is None:
            return
        op = dict(op='copy', out=self.new(), src=k)
        if self.rng.random() < 0.3:
            op['unspec'] = self.rng.choice((None, 0, 77))
        self.put(op, snapshot(self.h[k].kind, self.h[k], op.get('unspec', self.h[k].unspec)))

    def gen_elements(self):
        k = self.pick(lambda a: a.kind in SPARSE)
        if k is not None:
            self.put(dict(op='elements', src=k))

    def gen_equal(self):
        k = self.pick(lambda a: a.kind in SPARSE)
        if k is None:
            return
        o = self.pick(lambda a: a.kind in SPARSE and a.shape == self.h[k].shape)
        if self.rng.random() < 0.2:
            o = self.pick(lambda a: a.kind in SPARSE)
        self.put(dict(op='equal', src=k, other=o))

    def gen_meta(self):
        k = self.pick()
        if k is not None:
            self.put(dict(op='meta', src=k))

    def run(self):
        for _ in range(self.rng.choice((1, 1, 2))):
            self.mk()
        mix = self.p['mix']
        for _ in range(self.rng.randint(3, 12)):
            getattr(self, 'gen_' + self.rng.choices(sorted(mix), [mix[k] for k in sorted(mix)])[0])()
            if len(self.h) > 6:
                k = self.rng.choice(sorted(self.h))
                del self.h[k]
                self.ops.append(dict(op='drop', src=k))
        return self.ops


def assignable(a):
    """Assigning to a mapped array visits every place of it."""
    return a.shape and 0 not in a.shape and (a.kind != 'DM' or prod(a.shape) <= 2000)


def convertible(a, to):
    """Conversions that do not visit every place."""
    return (to in ('COO', 'FlatCOO') and a.kind in ('COO', 'FlatCOO')
            or to == 'CSR' and a.kind == 'COO' and len(a.shape) == 2 and a.shape[0] <= 3000)


def nested(shape, f, at=()):
    if not shape:
        return f(at)
    return [nested(shape[1:], f, at + (i,)) for i in range(shape[0])]


def reduced(shape, groups):
    """-> shape and strides of the storage of a mapping"""
    return (tuple(prod(shape[d] for d in g) for g in groups),
            tuple(c_strides(tuple(shape[d] for d in g)) for g in groups))


def reduce_at(idx, groups, rstrides):
    return tuple(sum(idx[d] * s for d, s in zip(g, st)) for g, st in zip(groups, rstrides))


def model_mk(op):
    """-> (Arr, device size or stored positions)"""
    shape = tuple(op['shape'])
    axes = [range(n) for n in shape]
    kind = op['kind']
    groups = op.get('groups')
    if kind in DENSE:
        if kind == 'DM':
            rshape, rstrides = reduced(shape, groups)
            cs = c_strides(rshape)

            def pos(idx):
                return sum(k * s for k, s in zip(reduce_at(idx, groups, rstrides), cs))
        else:
            cs = c_strides(shape)

            def pos(idx):
                return sum(k * s for k, s in zip(idx, cs))
        off = op['far']
        lazy = Lazy(off + prod(shape) + op['post'])
        name = 'V%d' % op['out']
        base = Base(shape, {}, lazy, lambda idx: (name, off + pos(idx)))
        return Arr(kind, base, axes, op['unspec'], groups), lazy
    cells = {tuple(i): Cell(v) for i, v in zip(op['idx'], op['vals'])}
    if kind == 'DMS':
        kind = 'DM'
    return Arr(kind, Base(shape, cells), axes, op['unspec'], groups), None


def generate(prop, rng):
    p = PROFILES[prop]
    plan = dict(engine='vast', prop=prop, ops=Gen(rng, p).run(),
                config=dict(confine=bool(p.get('confine')), box=rng.random() < 0.3))
    rate = rng.choice(p['rates'])
    if rate:
        ex = Exec(plan)
        judged(ex)
        for op, (acc, lines) in zip(plan['ops'], ex.counts):
            if op['op'] not in p['faultops'] or rng.random() >= rate:
                continue
            k = rng.choice(p['faults'])
            if k == 'dead':
                op['faults'] = [dict(at='dead', n=0, kind='err')]
            elif k.endswith('@line'):
                if lines:
                    op['faults'] = [dict(at='line', n=rng.randint(1, lines), kind=k[:-5])]
            elif acc:
                op['faults'] = [dict(at='acc', n=rng.choice((rng.randint(1, acc), 1, acc)), kind=k)]
    return plan


# ==========================================================================
# execution

class CutShort(Exception):
    pass


class Exec:
    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self.s, _ = core.load()
        self.w = World()
        self.w.device_error = plan.get('device_error', 'OSError')
        self.w.keep_log = keep_log
        self.w.box = bool(plan['config'].get('box'))
        self.h = {}
        self.opno = -1
        self.counts = []
        self.last = Ctx()

    def fail(self, kind, detail):
        raise Violation(kind, detail, self.opno)

    def run(self):
        with core.monitored(self.w):
            try:
                for i, op in enumerate(self.plan['ops']):
                    self.opno = i
                    self.counts.append([0, 0])
                    before = self.w.steps
                    getattr(self, 'do_' + op['op'])(op)
                    self.w.log(i, op['op'], self.w.steps - before,
                               [list(x) for x in self.last.fired])
            except CutShort:
                self.w.probe('cut-short')
        return self

    def attempt(self, f, faults=()):
        ctx = self.last = self.w.ctx = Ctx(faults, ENOUGH)
        try:
            r = ('ok', f())
        except core.StepBudget:
            raise CutShort
        except (HarnessError, Violation):
            raise
        except MemoryError as e:
            if not ctx.fired:
                raise CutShort       # a list of every place of an axis
            r = ('exc', e)
        except (Exception, core.SimInterrupt) as e:
            r = ('exc', e)
        finally:
            self.w.ctx = None
        if ctx.oob:
            self.fail('outside-window', 'access to position(s) %r outside the memory' % (ctx.oob[:3],))
        if r[0] == 'exc':
            if not ctx.fired:
                self.fail('unexpected-exception', '%s raised %s: %s' % (
                    self.what, type(r[1]).__name__, str(r[1])[:200]))
            if not chain_has_injected(r[1]):
                self.fail('fault-masked', '%s met %r but raised the unrelated %s: %s' % (
                    self.what, ctx.fired[0][0], type(r[1]).__name__, str(r[1])[:200]))
        elif not ctx.fired:
            self.counts[-1] = [ctx.acc, ctx.lines]
        return r

    def quiet(self, f):
        """An observation: no faults."""
        ctx = self.w.ctx = Ctx((), ENOUGH)
        try:
            return f()
        except (core.StepBudget, MemoryError):
            raise CutShort
        finally:
            self.w.ctx = None
            if ctx.oob:
                self.fail('outside-window', 'access to position(s) %r outside the memory' % (
                    ctx.oob[:3],))

    def verify(self, why, pending=None):
        """Every stored element of every array, and places near them."""
        for hid in sorted(self.h):
            a = self.h[hid]
            if tuple(a.obj.shape) != a.shape:
                self.fail(why, 'shape of h%d is %r, not %r' % (hid, a.obj.shape, a.shape))
            st = a.stored()
            seen = set()
            seen.update(st)
            for i, c in list(st.items())[self.opno % 2 if len(st) > 40 else 0::1 + len(st) // 40]:
                self.compare(hid, a, i, c, why, pending)
            keys = list(st)
            for n, i in enumerate(keys[self.opno % 3::max(1, len(st) // 6)]):
                # the column of another element
                near = i[:-1] + keys[(n * 7 + self.opno * 5) % len(keys)][-1:]
                if near not in seen:
                    self.compare(hid, a, near, a.cell(near), why, pending)
                near = i[:-1] + (i[-1] + 1 if i else 0,) if i else ()
                if i and near[-1] < a.shape[-1] and near not in seen:
                    self.compare(hid, a, near, a.cell(near), why, pending)
        for hid in sorted(self.h):
            a = self.h[hid]
            if a.dense:
                want = {c.home[1]: c for c in a.base.cells.values()}
                for pos, (v,) in sorted(a.base.lazy.d.items()):
                    c = want.get(pos)
                    if c is None:
                        if not same(v, a.base.lazy.default(pos)):
                            self.fail(why, 'position %d of the memory of h%d was overwritten by %r'
                                      % (pos, hid, v))
                    elif not self.allowed(v, c, pending):
                        self.fail(why, 'position %d of the memory of h%d holds %r, not %r'
                                  % (pos, hid, v, c.v))

    def allowed(self, v, c, pending):
        if pending is not None and id(c) in pending:
            return any(same(v, x) for x in pending[id(c)])
        return same(v, c.v)

    def compare(self, hid, a, i, c, why, pending):
        try:
            got = self.quiet(lambda: a.obj[i])
        except (CutShort, Violation):
            raise
        except Exception as e:
            self.fail(why, 'h%d[%r] raises %s: %s' % (hid, i, type(e).__name__, str(e)[:100]))
        if c is None:
            ok = same(got, a.unspec)
        else:
            ok = self.allowed(got, c, pending) or c.maybe and same(got, a.unspec)
        if not ok:
            self.fail(why, 'h%d[%r] is %r, not %r' % (hid, i, got, a.unspec if c is None else c.v))

    # -- operations ------------------------------------------------------------
    def device(self, op, cells):
        d = SimDevice(self.w, 'V%d' % op['out'], cells,
                      n=None if not isinstance(cells, Lazy) else cells.n)
        return d

    def do_mk(self, op):
        self.what = 'building h%d' % op['out']
        a, lazy = model_mk(op)
        S = self.s
        shape = a.shape
        u = op['unspec']
        kind = op['kind']
        groups = op.get('groups')
        if kind in ('DM', 'DMS'):
            rshape, rstrides = reduced(shape, groups)
        if kind in DENSE:
            n = prod(shape)
            buf = S.Buffer(n, op['far'], self.device(op, lazy), unspecified=u)
            sh = shape if kind == 'Strided' else rshape
            obj = S.Strided(sh, c_strides(sh), buf)
        else:
            idx = [tuple(i) for i in op['idx']]
            if kind == 'DMS':
                idx = [reduce_at(i, groups, rstrides) for i in idx]
            order = sorted(range(len(idx)), key=lambda k: idx[k])
            idx = [idx[k] for k in order]
            vals = [op['vals'][k] for k in order]
            if op['dev']:
                pre = op['pre']
                mem = ['g%d' % k for k in range(pre)] + vals + ['g'] * op['post']
                buf = S.Buffer(len(vals), pre, self.device(op, mem), unspecified=u)
                own = list(op['idx'])
                for n, k in enumerate(order):
                    a.base.cells[tuple(own[k])].home = ('V%d' % op['out'], pre + n)
            else:
                buf = S.Buffer(len(vals), 0, vals, unspecified=u)
            obj = build_sparse(S, op.get('store') if kind == 'DMS' else kind,
                               rshape if kind == 'DMS' else shape, idx, buf)
        if kind in ('DM', 'DMS'):
            obj = S.DM(shape, tuple(map(tuple, groups)), rstrides, (0,) * len(groups), obj)
        a.obj = obj
        self.h[op['out']] = a
        self.verify('wrong-when-built')

    def have(self, *ids):
        return all(i in self.h for i in ids)

    def made(self, op, f, a, live=False):
        faults = op.get('faults', ())
        r = self.attempt(f, faults)
        if live and (self.last.reads or self.last.writes):
            self.fail('slice-touched-data', '%s accessed stored data at %r although the result '
                      'shares its elements' % (self.what, (self.last.reads + self.last.writes)[:3]))
        if self.last.writes:
            self.fail('read-operation-wrote', '%s wrote %r' % (self.what, self.last.writes[:3]))
        if r[0] == 'exc':
            self.verify('changed-by-failed-read')
            r = self.attempt(f)
            self.w.probe('retried-ok')
        a.obj = r[1]
        if type(a.obj).__name__ != a.kind:
            self.fail('wrong-result', '%s gave a %s, not %s' % (self.what, type(a.obj).__name__, a.kind))
        self.h[op['out']] = a
        self.settle(a)
        self.verify('wrong-result' if not self.last.fired else 'fault-swallowed')

    def settle(self, a):
        """Elements a snapshot may leave out: find out whether it did."""
        if a.kind in SPARSE and any(c.maybe for c in a.base.cells.values()):
            got = dict(self.quiet(lambda: list(a.obj.elements())))
            for i in [i for i, c in a.base.cells.items() if c.maybe and i not in got]:
                del a.base.cells[i]
        for c in a.base.cells.values():
            if a.kind in SPARSE:
                c.maybe = False

    def do_slice(self, op):
        if not self.have(op['src']):
            return
        a = self.h[op['src']]
        self.what = 'slicing h%d[%r]' % (op['src'], op['ix'])
        new, live = a.slice(op['ix'])
        ri = real_index(op['ix'])
        self.made(op, lambda: a.obj[ri], new, live)

    def do_conv(self, op):
        if not self.have(op['src']) or not convertible(self.h[op['src']], op['to']):
            return
        a = self.h[op['src']]
        self.what = 'h%d.as_%s()' % (op['src'], op['to'])
        f = getattr(a.obj, 'as_' + op['to'])
        if a.kind == op['to']:
            r = self.attempt(f)
            new = Arr(a.kind, a.base, a.axes, a.unspec) if r[1] is a.obj \
                else snapshot(a.kind, a, a.unspec)
            new.obj = r[1]
            self.h[op['out']] = new
            return self.verify('wrong-result')
        self.made(op, f, snapshot(op['to'], a, a.unspec))

    def do_copy(self, op):
        if not self.have(op['src']):
            return
        a = self.h[op['src']]
        self.what = 'copying h%d' % op['src']
        kw = {'unspecified': op['unspec']} if 'unspec' in op else {}
        self.made(op, lambda: a.obj.copy(**kw), snapshot(a.kind, a, op.get('unspec', a.unspec)))

    def read(self, op, f, check):
        r = self.attempt(f, op.get('faults', ()))
        if self.last.writes:
            self.fail('read-operation-wrote', '%s wrote %r' % (self.what, self.last.writes[:3]))
        if r[0] == 'exc':
            self.verify('changed-by-failed-read')
            r = self.attempt(f)
            self.w.probe('retried-ok')
        err = check(r[1])
        if err:
            self.fail('fault-swallowed' if self.last.fired else 'wrong-result',
                      '%s: %s' % (self.what, err))

    def do_get(self, op):
        if not self.have(op['src']):
            return
        a = self.h[op['src']]
        i = tuple(it[1] for it in op['ix'])
        if len(i) != len(a.shape):
            return
        self.what = 'h%d[%r]' % (op['src'], i)
        c = a.cell(tuple(k % n for k, n in zip(i, a.shape)))

        def check(v):
            want = a.unspec if c is None else c.v
            if not same(v, want) and not (c is not None and c.maybe and same(v, a.unspec)):
                return 'is %r, not %r' % (v, want)
        self.read(op, lambda: a.obj[i], check)

    def do_elements(self, op):
        if not self.have(op['src']):
            return
        a = self.h[op['src']]
        self.what = 'the elements of h%d' % op['src']

        def check(got):
            want = [(i, c.v) for i, c in a.stored().items()]
            if [i for i, _ in got] != [i for i, _ in want] or \
                    not all(same(u, v) for (_, u), (_, v) in zip(got, want)):
                return 'are %r, not %r' % (got[:30], want[:30])
        self.read(op, lambda: list(a.obj.elements()), check)

    def do_equal(self, op):
        if not self.have(op['src']) or op['other'] not in self.h:
            return
        a, b = self.h[op['src']], self.h[op['other']]
        self.what = 'h%d.equal(h%d)' % (op['src'], op['other'])
        x = {i: c.v for i, c in a.stored().items()}
        y = {i: c.v for i, c in b.stored().items()}
        if a.shape != b.shape and x == y or any(c.v == o.unspec for o in (a, b)
                                                for c in o.base.cells.values()):
            return
        want = x == y

        def check(got):
            if got is not want:
                return 'is %r, not %r' % (got, want)
        self.read(op, lambda: a.obj.equal(b.obj), check)

    def do_meta(self, op):
        if not self.have(op['src']):
            return
        a = self.h[op['src']]
        self.what = 'the sizes of h%d' % op['src']
        want = [a.shape]
        if a.shape:
            want.append(a.shape[0])
        if a.kind in SPARSE:
            want += [len(a.base.cells), len(a.base.cells) == prod(a.shape)]

        def f():
            out = [tuple(a.obj.shape)]
            if a.shape:
                out.append(len(a.obj))
            if a.kind in SPARSE:
                out += [a.obj.size, a.obj.is_full()]
            return out
        self.read(op, f, lambda got: None if got == want else 'are %r, not %r' % (got, want))

    def do_set(self, op):
        if not self.have(op['dst']) or not self.have(op.get('src', op['dst'])):
            return
        a = self.h[op['dst']]
        if not assignable(a):
            return
        src = self.h.get(op.get('src'))
        sel = a.resolve(op['ix'])
        ri = real_index(op['ix'])
        self.what = 'assigning h%d[%r]%s' % (op['dst'], op['ix'],
                                             ' from h%d' % op['src'] if src else '')
        elem = all(isinstance(s, int) for s in sel)
        if elem:
            targets = [((), a.cell(tuple(sel)))]
        else:
            view = Arr('view', a.base, a.window(sel), a.unspec)
            if src and src.shape != view.shape:
                return
            if a.dense:
                if prod(view.shape) > 4000:
                    return
                targets = [(i, view.cell(i)) for i in indices(view.shape)]
            else:
                targets = list(view.stored().items())

        def compute():
            return [(c, op['val'] if elem else src.read(i) if src else nested_get(op['val'], i))
                    for i, c in targets if c is not None]
        updates = compute()
        if any(c.maybe for c, _ in updates) or src and any(
                c.maybe for c in src.base.cells.values()):
            return
        value = src.obj if src else op['val']

        def f():
            a.obj[ri] = value
        r = self.attempt(f, op.get('faults', ()))
        if self.plan['config'].get('confine'):
            may = {c.home for c, _ in updates}
            bad = [w for w in self.last.writes if w not in may]
            if bad:
                self.fail('wrote-elsewhere', '%s wrote %r' % (self.what, bad[:3]))
        if r[0] == 'exc':
            rw = [x[3] for x in self.last.fired]
            pending = {id(c): [c.v, v] for c, v in updates}
            if src and not self.last.writes:
                pending = {}
            self.verify('changed-by-failed-assignment', pending)
            if self.last.writes and src and src.base is a.base:
                # a reissued assignment would read what the first one stored
                for c, v in updates:
                    pass
                raise CutShort
            r = self.attempt(f)
            self.w.probe('retried-ok' if 'r' in rw else 'reissued-ok')
        for c, v in updates:
            c.v = v
        self.verify('wrong-after-assignment')

    def do_drop(self, op):
        self.h.pop(op['src'], None)


def build_sparse(S, kind, shape, idx, buf):
    n = len(idx)
    if kind == 'COO':
        flat = [i[d] for d in range(len(shape)) for i in idx]
        return S.COO(shape, S.Strided((len(shape), n), (n, 1), S.Buffer(len(flat), 0, flat)), buf)
    if kind == 'FlatCOO':
        cs = c_strides(shape)
        return S.FlatCOO(shape, S.Buffer(n, 0, [sum(k * s for k, s in zip(i, cs)) for i in idx]), buf)
    crow = [sum(1 for i in idx if i[0] < r) for r in range(shape[0] + 1)]
    return S.CSR(shape, S.Buffer(len(crow), 0, crow), S.Buffer(n, 0, [i[1] for i in idx]), buf)


def judged(ex):
    try:
        with memory(), sched.seams(single=True):
            ex.run()
    except Violation as e:
        return dict(kind=e.kind, detail=e.detail, op=e.opno)
    except HarnessError:
        raise
    except Exception as e:
        if not core.from_gcs(e):
            raise
        return dict(kind='unexpected-exception', op=ex.opno,
                    detail='%s: %s' % (type(e).__name__, str(e)[:300]))
    return None


class memory:
    """So much more address space and no more: what would list every place of a
    vast axis fails at once and is cut off."""

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        with open('/proc/self/statm') as f:
            have = int(f.read().split()[0]) * resource.getpagesize()
        top = have + (1 << 30)
        for n in self.old:
            if n != resource.RLIM_INFINITY:
                top = min(top, n)
        resource.setrlimit(resource.RLIMIT_AS, (top, self.old[1]))

    def __exit__(self, *exc):
        resource.setrlimit(resource.RLIMIT_AS, self.old)
        return False


def execute(plan, keep_log=False):
    ex = Exec(plan, keep_log)
    v = judged(ex)
    ex.w.log('end', v and v['kind'])
    return dict(violation=v, hash=ex.w.h.hexdigest(), steps=ex.w.steps,
                faults=ex.w.fault_counts, probes=ex.w.probes, log=ex.w.log_tail)


TIME_UNIT = 'device accesses and executed lines of the code under test'
COMPONENTS = dict(
    real='gcs.storage and gcs.slice_tools of the working tree, unmodified, through their public '
         'classes and methods',
    stub='the backing memory (SimDevice; of dense arrays populated as it is written), the '
         'allocator and asynchronous interrupts (raised at line events)')
ASSUMPTIONS = [
    'operations on vast arrays that take more than %d lines are cut off and not judged' % ENOUGH]
