"""Histories engine: sequences of storage operations with injected faults.

A plan is plain data.  `generate` makes one from a seeded PRNG (sizes, formats,
operation mix, fault kinds all vary per run); `execute` runs a plan against the
real code and the reference model and is a pure function of (plan, code).
"""
import io
import itertools
import math
import sys

from . import core
from .core import (Ctx, HarnessError, SimCrash, SimDevice, World,
                   chain_has_injected)
from .model import (MISSING, SPARSE, Cell, M, c_strides, dm_groups,
                    from_full, indices, inner_is_sparse, nested_get, prod,
                    real_index, reduce_pos, resolve, select)

KINDS = ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM')


class Violation(Exception):
    def __init__(self, kind, detail, opno=None):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.opno = opno


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is float and (a != a or a == 0):
        return repr(a) == repr(b)
    return a == b


def has_nan(m):
    return any(c.v != c.v for c in m.cells.values())


# ==========================================================================
# plan generation

class Gen:
    """Generates one plan; keeps a model of the handles to know their shapes."""

    def __init__(self, rng, profile):
        self.rng = rng
        self.p = profile
        self.ops = []
        self.h = {}          # id -> M
        self.base = {}       # id -> id of the base handle (same cells family)
        self.meta = {}       # id -> flags
        self.next = 0
        self.its = {}
        self.itn = 0
        self.val = 1000
        self.maxel = rng.choice(profile.get('maxel', (4, 8, 12, 24, 24, 48)))
        self.maxdim = rng.choice(profile.get('maxdim', (1, 2, 2, 3, 3, 4, 5)))
        self.maxaxis = max(rng.choice((2, 3, 4, 5, 9)), profile.get('minaxis', 0) + 2)
        self.pdev = rng.choice(profile.get('pdev', (0.0, 0.5, 0.8, 1.0)))
        self.alias = rng.random() < profile.get('palias', 0.4)
        self.kinds = [k for k in profile['kinds']]
        if rng.random() < 0.5 and len(self.kinds) > 2:
            self.kinds = sorted(rng.sample(self.kinds, rng.randint(2, len(self.kinds))))
        self.stores = ['Strided', 'Buffer', 'COO', 'FlatCOO', 'CSR', 'DM']
        self.pspec = rng.choice((0.0, 0.1, 0.4, 0.6, 0.6, 0.9, 1.0))   # density
        self.huge = False
        self.large = rng.random() < profile.get('plarge', 0.06)
        if self.large:
            self.maxel = rng.choice(profile.get('largeel', (120, 200, 320)))
            self.maxaxis = rng.choice((6, 16, 40, 80))
            if 'largeel' not in profile and rng.random() < 0.08:
                # beyond the sizes at which small integers, chunks or caches end
                self.maxel = rng.choice(profile.get('hugeel', (520, 1040)))
                self.maxdim = rng.choice((1, 1, 2, 2, 3))
                self.maxaxis = rng.choice((40, 300, 1040))
                self.huge = True
        # values that are equal to nothing, not even themselves
        self.pnan = 0.02 if 'write' not in profile and rng.random() < 0.15 else 0
        # arrays of one run often have related shapes
        self.psib = rng.choice((0.0, 0.3, 0.8))

    # -- random pieces -------------------------------------------------------
    def newid(self):
        self.next += 1
        return self.next

    def value(self, unspec):
        r = self.rng.random()
        if r < self.p.get('punspec', 0.06):
            return unspec
        if r < 0.12:
            return self.rng.choice((0, 1, -1))
        if r < 0.16:
            # equal, but not the same
            return self.rng.choice((1, 1.0, True, 2, 2.0))
        self.val += 1
        if r < 0.16 + self.pnan:
            # equal to nothing; more than a machine word
            return self.rng.choice((math.nan, math.nan, 1 << 70))
        if r < 0.18:
            return self.val + 0.5
        if r < 0.20:
            return 'v%d' % self.val
        return self.val

    def shape(self, ndim=None):
        rng = self.rng
        if ndim is None:
            ndim = rng.randint(1, self.maxdim)
        if self.large and ndim == 2 and rng.random() < 0.6:
            # few long rows
            s = (rng.randint(1, 4), rng.randint(20, max(20, self.maxel // 4)))
            return s if rng.random() < 0.8 else s[::-1]
        if self.huge and ndim == 1 and rng.random() < 0.8:
            return (rng.randint(self.maxel // 2, self.maxel),)
        for _ in range(20):
            s = tuple(rng.randint(self.p.get('minaxis', 1), self.maxaxis) for _ in range(ndim))
            if prod(s) <= self.maxel:
                return s
        out = []
        left = self.maxel
        for _ in range(ndim):
            k = rng.randint(1, max(1, min(self.maxaxis, left)))
            out.append(k)
            left = max(1, left // k)
        rng.shuffle(out)
        return tuple(out)

    def sibling(self, ndim):
        """The shape of an array that exists, or that shape permuted or refactored."""
        rng = self.rng
        c = [self.h[i].shape for i in sorted(self.h) if all(self.h[i].shape)
             and (ndim is None or len(self.h[i].shape) == ndim)]
        if not c:
            return None
        s = list(rng.choice(c))
        r = rng.random()
        if r < 0.4:
            rng.shuffle(s)
        elif r < 0.5:
            k = rng.randrange(len(s))
            s[k] = max(1, s[k] + rng.choice((-1, 1)))
        return tuple(s)

    def unspec(self):
        return self.rng.choice((None, None, None, 0, 0, -1, 0.25, 70000, 'u'))

    def flat(self, shape, unspec):
        rng = self.rng
        style = rng.random()
        n = prod(shape)
        out = []
        rows = {}
        band = {}
        last = rng.randint(0, shape[-1])
        for i, idx in enumerate(indices(shape)):
            if 0.35 <= style < (0.8 if self.large else 0.5) and len(shape) > 1:
                # bands and triangles: a row begins where another one ends
                r = idx[:-1]
                if r not in band:
                    if rng.random() < 0.6:
                        cut = last
                    else:
                        cut = rng.randint(0, shape[-1])
                    band[r] = (0, cut) if rng.random() < 0.5 else (cut, shape[-1])
                    last = cut
                keep = band[r][0] <= idx[-1] < band[r][1]
            elif style < 0.15:
                # whole rows empty or full
                r = idx[0]
                if r not in rows:
                    rows[r] = rng.random() < 0.5
                keep = rows[r]
            elif style < 0.25:
                keep = i >= n // 2
            elif style < 0.35:
                keep = i < n // 2
            else:
                keep = rng.random() < self.pspec
            if keep:
                v = self.value(unspec)
            else:
                # lists mark an unspecified element by None or by the value
                v = None if unspec is None or rng.random() < 0.5 else unspec
            out.append(v)
        return out

    def dm_params(self, ndim, store=None):
        rng = self.rng
        dims = list(range(ndim))
        if rng.random() < 0.75:
            rng.shuffle(dims)
        stores = list(self.stores)
        if store is None:
            store = rng.choice(stores)
        if store == 'CSR':
            if ndim < 2:
                store = 'COO'
                part = ()
            else:
                part = (rng.randint(1, ndim - 1),)
        elif store == 'Buffer':
            part = ()
        if store not in ('CSR', 'Buffer'):
            m = rng.randint(1, ndim)
            part = tuple(sorted(rng.sample(range(1, ndim), m - 1)))
        return dims, list(part), store

    def index(self, shape, elem=False, sized=None):
        """A random index spec; elem=True fixes every axis."""
        rng = self.rng
        out = []
        for n in shape:
            if elem:
                if n == 0:
                    return None
                out.append(['i', rng.randrange(-n, n)])
                continue
            r = rng.random()
            if r < 0.3 and n > 0:
                out.append(['i', rng.randrange(-n, n)])
            elif r < 0.45:
                out.append(['n'])
            elif r < 0.55:
                out.append(['s', None, None, None])
            elif r < 0.65:
                out.append(['s', None, None, -1])
            else:
                f = (lambda: None if rng.random() < 0.3 else rng.randint(-n - 2, n + 2))
                step = rng.choice((None, 1, 1, 2, 3, -1, -1, -2, -3, n + 1, -n - 1, n or 1))
                it = ['s', f(), f(), step]
                if not list(range(n))[slice(*it[1:])] and rng.random() < 0.85:
                    it = ['s', rng.choice((None, 0)), None, rng.choice((1, 2, None))]
                out.append(it)
        if elem:
            return out
        if len(out) > 1 and rng.random() < 0.25:
            out = out[:rng.randint(1, len(out))]
        if all(it[0] == 'i' for it in out) and len(out) == len(shape):
            out[rng.randrange(len(out))] = ['n']
        return out

    def form(self, ix):
        return 'scalar' if len(ix) == 1 and self.rng.random() < 0.5 else 'tuple'

    # -- operations ------------------------------------------------------------
    def emit(self, op):
        self.ops.append(op)
        return op

    def live(self, pred=None):
        return [i for i in sorted(self.h) if pred is None or pred(i)]

    def add(self, id, m, base, **meta):
        self.h[id] = m
        self.base[id] = base
        self.meta[id] = meta

    def op_mk(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(self.kinds)
        ndim = 2 if kind == 'CSR' else 1 if kind == 'Buffer' else None
        shape = self.sibling(ndim) if rng.random() < self.psib else None
        shape = shape or self.shape(ndim)
        u = self.unspec()
        op = dict(op='mk', out=self.newid(), kind=kind, shape=list(shape), unspec=u,
                  vals=self.flat(shape, u))
        if kind == 'DM':
            op['dims'], op['part'], op['store'] = self.dm_params(len(shape))
        dev = rng.random() < self.pdev
        if dev:
            op['how'] = 'dev'
            op['alias'] = self.alias
            op['pre'] = rng.choice((0, 0, 1, 3))
            op['post'] = rng.choice((0, 1, 2))
            if self.p.get('arena'):
                op['arena'] = True
            if kind == 'Strided' or (kind == 'DM' and op['store'] == 'Strided'):
                op['layout'] = self.layout(len(shape) if kind == 'Strided' else len(op['part']) + 1)
        else:
            op['how'] = 'list'
            if kind == 'DM' and rng.random() < 0.15 and op['store'] != 'CSR':
                op['defaults'] = True     # leave dimensions/partitioning to the library
                n = len(shape)
                op['dims'] = list(range(n))
                op['part'] = [] if op['store'] == 'Buffer' or n == 1 else [n - 1]
        self.emit(op)
        self.add(op['out'], model_mk(op), op['out'], mk=True)
        return op['out']

    def layout(self, n):
        rng = self.rng
        perm = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(perm)
        return dict(perm=perm, neg=[rng.random() < 0.2 for _ in range(n)],
                    pad=rng.choice((1, 1, 1, 2, 3)))

    def op_slice(self, src=None, deep=False):
        rng = self.rng
        c = [src] if src else self.live(lambda i: len(self.h[i].shape) > 0)
        if not c:
            return None
        src = rng.choice(c)
        m = self.h[src]
        op = dict(op='slice', out=self.newid(), src=src)
        if m.kind == 'Buffer':
            n = m.shape[0]
            lo, hi = -m.off, len(m.data) - m.off
            a = rng.choice((None, rng.randint(0, n)))
            b = rng.choice((None, rng.randint(0, n)))
            if self.p.get('overreach') and rng.random() < 0.3:
                a = rng.choice((a, rng.randint(lo, hi)))
                b = rng.choice((b, rng.randint(lo, hi)))
            ea, eb = (0 if a is None else a), (n if b is None else b)
            if not (0 <= ea <= n and 0 <= eb <= n and rng.random() < 0.3) and (
                    eb < ea or m.off + ea >= len(m.data) or m.off + eb <= 0):
                a, b = None, None
            if n == 0:
                return None
            op['win'] = [a, b]
            if rng.random() < 0.3:
                op['win'].append(1)
            nm, shared = m.buffer_window(a, b), True
        else:
            op['ix'] = self.index(m.shape)
            op['form'] = self.form(op['ix'])
            nm, shared = m.slice(op['ix'])
        self.emit(op)
        self.add(op['out'], nm, self.base[src] if shared else op['out'], view=True)
        return op['out']

    def op_wrap(self):
        """Build an array by constructor over an existing one (shares elements)."""
        rng = self.rng
        c = self.live(lambda i: all(self.h[i].shape))
        if not c:
            return None
        src = rng.choice(c)
        m = self.h[src]
        if m.kind == 'Buffer' and rng.random() < 0.5:
            n = m.shape[0]
            shape = self.factor(n if rng.random() < 0.7 else rng.randint(1, n),
                                rng.randint(1, 3))
            op = dict(op='wrap', out=self.newid(), src=src, kind='Strided', shape=list(shape))
        else:
            groups, shape, roff = [], [], []
            for n in m.shape:
                if rng.random() < 0.25 and n > 1:
                    k = rng.randint(1, n)
                    off = rng.randint(0, n - k)
                else:
                    k, off = n, 0
                f = self.factor(k, rng.randint(1, 2 if len(m.shape) > 1 else 3))
                groups.append([len(shape) + j for j in range(len(f))])
                shape += list(f)
                roff.append(off)
            n = len(shape)
            if n > 5:
                return None
            perm = list(range(n))
            if rng.random() < 0.6:
                rng.shuffle(perm)
            newshape = [None] * n
            for d in range(n):
                newshape[perm[d]] = shape[d]
            groups = [[perm[d] for d in g] for g in groups]
            op = dict(op='wrap', out=self.newid(), src=src, kind='DM', shape=newshape,
                      groups=groups, roff=roff)
        self.emit(op)
        self.add(op['out'], model_wrap(op, m), self.base[src], view=True)
        return op['out']

    def factor(self, n, k):
        out = []
        for _ in range(k - 1):
            divs = [d for d in range(1, n + 1) if n % d == 0]
            d = self.rng.choice(divs)
            out.append(d)
            n //= d
        out.append(n)
        self.rng.shuffle(out)
        return tuple(out)

    def op_copy(self):
        rng = self.rng
        c = self.live()
        if not c:
            return None
        src = rng.choice(c)
        op = dict(op='copy', out=self.newid(), src=src)
        if rng.random() < 0.3:
            op['unspec'] = self.unspec()
        m = self.h[src]
        self.emit(op)
        self.add(op['out'], m.snapshot(op.get('unspec', MISSING)), op['out'])
        return op['out']

    def op_conv(self, src=None):
        rng = self.rng
        c = [src] if src else self.live()
        if not c:
            return None
        src = rng.choice(c)
        m = self.h[src]
        n = len(m.shape)
        targets = [k for k in self.p.get('targets', KINDS) if not (k == 'CSR' and n != 2)]
        # shapes of several axes flatten into a buffer
        if not targets:
            return None
        to = rng.choice(targets)
        op = dict(op='conv', out=self.newid(), src=src, to=to,
                  via=rng.choice(('as', 'as', 'from')))
        if rng.random() < 0.35:
            op['unspec'] = self.unspec()
        if to == 'DM':
            op['dims'], op['part'], op['store'] = self.dm_params(n)
            if op['store'] == 'CSR' and m.kind == 'Buffer':
                op['store'] = 'COO'
        self.emit(op)
        self.add(op['out'], model_conv(op, m), op['out'])
        return op['out']

    def writable(self, i):
        m = self.h[i]
        return all(m.shape)

    def op_set(self, dst=None, elem=None):
        rng = self.rng
        c = [dst] if dst else self.live(self.writable)
        if not c:
            return None
        dst = rng.choice(c)
        m = self.h[dst]
        if m.kind == 'Buffer':
            elem = True
        elif elem is None:
            elem = rng.random() < self.p.get('pelem', 0.5)
        op = dict(op='set', dst=dst)
        if elem:
            ix = self.index(m.shape, elem=True)
            if m.kind == 'Buffer':
                ix = [['i', rng.randrange(m.shape[0])]]
            # aim at specified elements most of the time
            if m.cells and rng.random() < 0.8:
                idx = rng.choice(sorted(m.cells))
                ix = [['i', k if rng.random() < 0.7 or m.kind == 'Buffer' else k - n]
                      for k, n in zip(idx, m.shape)]
            op['ix'] = ix
            op['form'] = self.form(ix)
            op['val'] = self.value(m.unspec)
            if op['val'] is None and m.unspec is not None:
                op['val'] = 7
        else:
            ix = self.index(m.shape)
            op['ix'] = ix
            op['form'] = self.form(ix)
            shape, pairs, _ = select(ix, m.shape)
            srcs = self.source_for(dst, shape)
            rows = None
            if len(shape) > 1 and shape[0] and not self.p.get('write') and \
                    rng.random() < self.p.get('prows', 0.06):
                rows = [self.source_for(dst, shape[1:], 0.8) for _ in range(shape[0])]
            if rows and any(r is not None for r in rows):
                # a list of arrays and of lists
                op['rows'] = [dict(h=r) if r is not None else
                              from_nested_vals(shape[1:], lambda: self.value(m.unspec))
                              for r in rows]
            elif srcs is not None:
                op['src'] = srcs
            else:
                op['val'] = from_nested_vals(shape, lambda: self.value(m.unspec))
        self.emit(op)
        return dst

    def source_for(self, dst, shape, prob=None):
        """Perhaps pick another array as the source of a slice assignment."""
        rng = self.rng
        if rng.random() >= (self.p.get('psrc', 0.2) if prob is None else prob):
            return None
        overlap = self.p.get('overlap')
        c = []
        for i in self.live():
            if not overlap and self.base[i] == self.base[dst]:
                continue
            if self.h[i].shape == shape and self.h[i].kind != 'Buffer':
                c.append(i)
            if self.h[i].kind == 'Buffer' and self.h[i].shape == shape:
                c.append(i)
        if not c:
            return None
        return rng.choice(c)

    def op_get(self):
        rng = self.rng
        c = self.live(lambda i: all(self.h[i].shape))
        if not c:
            return None
        src = rng.choice(c)
        m = self.h[src]
        if m.kind == 'Buffer':
            ix = [['i', rng.randrange(m.shape[0])]]
        else:
            ix = self.index(m.shape, elem=True)
        self.emit(dict(op='get', src=src, ix=ix, form=self.form(ix)))
        return src

    def op_elements(self):
        c = self.live()
        if not c:
            return None
        self.emit(dict(op='elements', src=self.rng.choice(c)))

    def op_inspect(self):
        rng = self.rng
        c = self.live()
        if not c:
            return None
        a = rng.choice(c)
        what = rng.choice(self.p.get('inspect', ('equal', 'equal', 'eq', 'eqcanon', 'repr', 'str',
                                                'meta', 'equal_list')))
        op = dict(op='inspect', what=what, src=a)
        if what in ('equal', 'eq', 'ne'):
            same_shape = [i for i in c if self.h[i].shape == self.h[a].shape]
            op['other'] = rng.choice(same_shape if rng.random() < 0.8 else c)
        if what == 'equal_list':
            # the same values, or one element off
            op['off'] = rng.random() < 0.5
            op['at'] = rng.randrange(max(1, prod(self.h[a].shape)))
        if what == 'eqcanon' and self.h[a].kind not in SPARSE:
            op['what'] = 'repr'
        self.emit(op)

    def op_iterseq(self):
        c = self.live()
        if c:
            op = dict(op='iterseq', src=self.rng.choice(c))
            if self.rng.random() < 0.5:
                op['how'] = self.rng.choice(('deep', 'zip', 'both', 'reversed', 'member'))
            self.emit(op)

    def op_badindex(self):
        """An integer outside its axis, for reading or assigning."""
        rng = self.rng
        c = self.live(lambda i: self.h[i].kind != 'Buffer' and self.h[i].shape)
        if not c:
            return
        src = rng.choice(c)
        m = self.h[src]
        ix = self.index(m.shape)
        ix += [['n']] * (len(m.shape) - len(ix))
        d = rng.randrange(len(m.shape))
        n = m.shape[d]
        ix[d] = ['i', rng.choice((n, n + 1, -n - 1, 2 * n + 1, -2 * n - 2))]
        if rng.random() < 0.5:
            ix = [x if x[0] == 'i' or k == d or not m.shape[k] else ['i', rng.randrange(m.shape[k])]
                  for k, x in enumerate(ix)]
        self.emit(dict(op='badindex', src=src, ix=ix, write=rng.random() < 0.4))

    def op_short(self):
        """A slice assignment from a list that is too small."""
        rng = self.rng
        c = self.live(lambda i: self.h[i].kind != 'Buffer' and self.writable(i))
        if not c:
            return
        dst = rng.choice(c)
        m = self.h[dst]
        ix = self.index(m.shape)
        shape, pairs, _ = select(ix, m.shape)
        if not prod(shape):
            return
        d = rng.randrange(len(shape))
        cut = list(shape)
        cut[d] -= 1
        self.emit(dict(op='short', dst=dst, ix=ix, form=self.form(ix), cut=cut,
                       val=from_nested_vals(cut, lambda: self.value(m.unspec))))

    def op_crash(self):
        """The process dies between operations; later operations name only
        handles that can be reopened."""
        self.emit(dict(op='crash'))

    def op_iter(self):
        rng = self.rng
        c = self.live()
        if not c or len(self.its) >= 5:
            return self.op_next()
        src = rng.choice(c)
        if self.its and rng.random() < 0.5:
            # another iterator over an array that already has one
            src = rng.choice(sorted(self.its.values()))
            if src not in self.h:
                return
        self.itn += 1
        how = 'elements'
        if len(self.h[src].shape) == 1 and rng.random() < 0.25:
            how = 'seq'
        self.its[self.itn] = src
        self.emit(dict(op='iter', it=self.itn, src=src, how=how))

    def op_next(self):
        if not self.its:
            return self.op_iter() if self.live() else None
        it = self.rng.choice(sorted(self.its))
        n = self.rng.choice((1, 1, 1, 2, 3, 5, 40))
        self.emit(dict(op='next', it=it, n=n))

    def op_abandon(self):
        if self.its:
            it = self.rng.choice(sorted(self.its))
            del self.its[it]
            self.emit(dict(op='abandon', it=it, close=self.rng.random() < 0.5))

    def op_drop(self):
        c = self.live()
        if len(c) > 2:
            i = self.rng.choice(c)
            if i in self.its.values():
                return
            self.emit(dict(op='drop', h=i))
            del self.h[i], self.base[i], self.meta[i]

    def run(self):
        rng, p = self.rng, self.p
        for _ in range(rng.randint(*p.get('nmk', (1, 2)))):
            self.op_mk()
        weights = dict(p['mix'])
        # swarm: drop some operation kinds for this run
        for k in sorted(weights):
            if k not in p.get('always', ()) and rng.random() < 0.25:
                weights[k] = 0
        names = [k for k in sorted(weights) if weights[k] > 0]
        if not names:
            names = sorted(p['mix'])
            weights = dict(p['mix'])
        ws = [weights[k] for k in names]
        lo, hi = p.get('nops', (4, 14))
        if self.large:
            lo, hi = 2, 5
        for _ in range(rng.randint(lo, hi)):
            name = rng.choices(names, ws)[0]
            if name in ('copy', 'conv', 'slice', 'wrap', 'mk') and \
                    len(self.h) >= p.get('maxh', 6):
                name = 'drop'
            getattr(self, 'op_' + name)()
        return self.ops


def from_nested_vals(shape, f):
    if not shape:
        return f()
    return [from_nested_vals(shape[1:], f) for _ in range(shape[0])]


# ==========================================================================
# model side of the operations

def model_mk(op):
    shape = tuple(op['shape'])
    u = op['unspec']
    # in a list, None marks an unspecified element
    full = dict(zip(indices(shape), op['vals']))
    full = {i: (u if v is None else v) for i, v in full.items()}
    groups = None
    if op['kind'] == 'DM':
        groups = dm_groups(len(shape), op['dims'], op['part'])
    return from_full(op['kind'], shape, full, u, u, groups, op.get('store'))


def model_conv(op, m):
    groups = None
    if op['to'] == 'DM':
        groups = dm_groups(len(m.shape), op['dims'], op['part'])
    r = m.convert(op['to'], op.get('unspec', MISSING), groups, op.get('store'))
    if op['to'] == 'Buffer' and m.kind != 'Buffer':
        pass
    return r


def model_wrap(op, m):
    shape = tuple(op['shape'])
    cells = {}
    if op['kind'] == 'Strided':
        st = c_strides(shape)
        for idx in indices(shape):
            pos = sum(a * b for a, b in zip(idx, st))
            cells[idx] = m.data[m.off + pos]
        return M('Strided', shape, cells, m.unspec)
    groups = tuple(tuple(g) for g in op['groups'])
    for idx in indices(shape):
        r = tuple(o + reduce_pos(shape, g, idx) for g, o in zip(groups, op['roff']))
        c = m.cells.get(r)
        if c is not None:
            cells[idx] = c
    if m.kind in ('Strided', 'Buffer'):
        inner = 'dense'
    elif m.kind == 'DM':
        inner = ('DM', m.groups, m.inner)
    else:
        inner = 'sparse'
    return M('DM', shape, cells, m.unspec, inner, groups)


# ==========================================================================
# real side

class Handle:
    __slots__ = ('obj', 'm', 'reopen', 'meta_ok', 'devs', 'win')

    def __init__(self, obj, m, reopen=None, meta_ok=False, devs=(), win=frozenset()):
        self.obj = obj
        self.m = m
        self.reopen = reopen
        self.meta_ok = meta_ok
        self.devs = tuple(devs)   # devices that may serve its reads
        self.win = win            # positions of them that it may read


class FaultyStdout(io.TextIOBase):
    def __init__(self, mode):
        self.mode = mode
        self.written = 0

    def writable(self):
        return True

    def write(self, s):
        self.written += len(s)
        if self.mode == 'closed':
            raise ValueError('I/O operation on closed file.')
        if self.mode == 'full':
            raise OSError(28, 'No space left on device')
        if self.mode == 'pipe':
            raise BrokenPipeError(32, 'Broken pipe')
        return len(s)

    def flush(self):
        if self.mode == 'full' and self.written:
            raise OSError(28, 'No space left on device')

    def alive(self):
        if self.mode == 'closed':
            raise ValueError('I/O operation on closed file.')

    def isatty(self):
        self.alive()
        return self.mode == 'tty'

    def fileno(self):
        self.alive()
        raise io.UnsupportedOperation('fileno')

    @property
    def closed(self):
        return self.mode == 'closed'

    def close(self):
        pass

    @property
    def encoding(self):
        return 'ascii' if self.mode == 'ascii' else 'utf-8'


COSTLY = 2_500_000       # executed lines after which no further operation is begun


class Exec:
    """Executes one plan."""

    def __init__(self, plan, keep_log=False):
        self.plan = plan
        self.storage, self.tools = core.load()
        self.w = World()
        self.w.device_error = plan.get('device_error', 'OSError')
        self.w.keep_log = keep_log
        self.h = {}
        self.counts = []         # (accesses, lines) per op, for fault placement
        self.arena = None
        self.arena_top = 0
        self.ndev = 0
        self.opno = -1
        cfg = plan.get('config', {})
        self.budgeted = bool(cfg.get('budgeted')) or core.FORCE_BUDGET
        self.cold = bool(cfg.get('cold'))
        self.w.box = bool(cfg.get('box'))
        self.lazy = cfg.get('lazy') or 0
        self.monitor = bool(cfg.get('monitor')) or self.budgeted
        self.made = []
        self.confine = bool(cfg.get('confine'))
        self.check_order = bool(cfg.get('order'))
        self.nverify = 0
        self.crashed = 0
        self.acked = 0

    def cls(self, name):
        return getattr(self.storage, name)

    def fail(self, kind, detail):
        raise Violation(kind, detail, self.opno)

    # -- devices -----------------------------------------------------------
    def dev_region(self, values, pre, post, alias, arena):
        """Place values on a device; returns (device, offset)."""
        if arena:
            if self.arena is None:
                cells = ['guard%d' % i for i in range(1500)]
                self.arena = SimDevice(self.w, 'A', cells, alias)
                self.w.devices['A'] = self.arena
            off = self.arena_top + pre
            if off + len(values) + post > len(self.arena.cells):
                return self.dev_region(values, pre, post, alias, False)
            self.arena.cells[off:off + len(values)] = values
            self.arena_top = off + len(values) + (post if post else 0)
            return self.arena, off
        self.ndev += 1
        name = 'D%d' % self.ndev
        cells = (['guard%d' % i for i in range(pre)] + list(values)
                 + ['guard%d' % (pre + len(values) + i) for i in range(post)])
        dev = SimDevice(self.w, name, cells, alias)
        self.w.devices[name] = dev
        return dev, pre

    def dev_buffer(self, values, op, unspec=None, start=0):
        """-> (make() -> Buffer, homes, windows)"""
        dev, off = self.dev_region(values, op['pre'], op['post'], op['alias'], op.get('arena'))
        homes = [(dev.name, off + i) for i in range(len(values))]
        self.made.extend(homes)
        n = len(values)
        B = self.cls('Buffer')

        def make():
            if unspec is None:
                return B(n - start, off + start, dev)
            return B(n - start, off + start, dev, unspecified=unspec)
        return make, homes

    def build_dev(self, kind, shape, full, op, groups=None, store=None):
        """Build an array by constructors over devices from its elements.

        full: index -> value for every element (unspecified ones included).
        -> (make, homes: index -> (device, position) of stored elements, extra
            homes of index structure)"""
        u = op['unspec']
        S = self.cls
        shape = tuple(shape)
        if kind == 'Buffer':
            vals = [full[i] for i in indices(shape)]
            make, homes = self.dev_buffer(vals, op, u)
            return make, {(i,): homes[i] for i in range(len(vals))}, []
        if kind == 'Strided':
            lay = op.get('layout') or dict(perm=list(range(len(shape))),
                                           neg=[False] * len(shape), pad=1)
            strides = [0] * len(shape)
            st = lay['pad']
            for d in reversed(lay['perm']):
                strides[d] = st
                st *= shape[d]
            start = 0
            for d in range(len(shape)):
                if lay['neg'][d]:
                    start += strides[d] * (shape[d] - 1)
                    strides[d] = -strides[d]
            # a fully negative layout starts at its last position
            n = st
            vals = ['gap%d' % i for i in range(n)]
            pos = {}
            for idx in indices(shape):
                q = start + sum(a * b for a, b in zip(idx, strides))
                pos[idx] = q
                vals[q] = full[idx]
            make, homes = self.dev_buffer(vals, op, u, start)
            strides = tuple(strides)
            return ((lambda: S('Strided')(shape, strides, make())),
                    {i: homes[q] for i, q in pos.items()}, [])
        if kind in SPARSE:
            keys = [i for i in sorted(full) if not (full[i] == u)]
            nse = len(keys)
            vmake, vhomes = self.dev_buffer([full[i] for i in keys], op, u)
            homes = dict(zip(keys, vhomes))
            if kind == 'COO':
                n = len(shape)
                flat = [i[d] for d in range(n) for i in keys]
                imake, ihomes = self.dev_buffer(flat, op)
                istr = c_strides((n, nse))
                return ((lambda: S('COO')(shape, S('Strided')((n, nse), istr, imake()), vmake())),
                        homes, ihomes)
            if kind == 'FlatCOO':
                st = c_strides(shape)
                flat = [sum(a * b for a, b in zip(i, st)) for i in keys]
                imake, ihomes = self.dev_buffer(flat, op)
                return (lambda: S('FlatCOO')(shape, imake(), vmake())), homes, ihomes
            crow = [0]
            for r in range(shape[0]):
                crow.append(crow[-1] + sum(1 for i in keys if i[0] == r))
            rmake, rhomes = self.dev_buffer(crow, op)
            cmake, chomes = self.dev_buffer([i[1] for i in keys], op)
            return ((lambda: S('CSR')(shape, rmake(), cmake(), vmake())), homes, rhomes + chomes)
        assert kind == 'DM'
        rshape = tuple(prod(shape[d] for d in g) for g in groups)
        red = {}
        back = {}
        for idx in indices(shape):
            r = tuple(reduce_pos(shape, g, idx) for g in groups)
            red[r] = full[idx]
            back[r] = idx
        g2 = None
        st2 = None
        if store == 'DM':
            m = len(groups)
            part = () if m == 1 else (m - 1,)
            g2 = dm_groups(m, list(range(m)), part)
            st2 = 'Strided'
        imake, ihomes, extra = self.build_dev(store, rshape, red, op, g2, st2)
        rstr = tuple(tuple(prod(shape[d] for d in g[i + 1:]) for i in range(len(g)))
                     for g in groups)
        roff = (0,) * len(groups)
        groups = tuple(tuple(g) for g in groups)
        return ((lambda: S('DM')(shape, groups, rstr, roff, imake())),
                {back[r]: h for r, h in ihomes.items()}, extra)

    # -- observation -------------------------------------------------------
    def observe(self, obj, m, mode):
        """Read the whole array through its public interface, fault free."""
        saved, self.w.ctx = self.w.ctx, (Ctx((), self.op_budget()) if self.budgeted else None)
        try:
            if tuple(obj.shape) != m.shape:
                return None, 'shape is %r, expected %r' % (tuple(obj.shape), m.shape)
            if not same(obj.unspecified, m.unspec):
                return None, 'unspecified is %r, expected %r' % (obj.unspecified, m.unspec)
            out = {}
            if mode == 'index':
                for idx in indices(m.shape):
                    out[idx] = obj[idx if m.kind != 'Buffer' else idx[0]]
            else:
                for idx, v in obj.elements():
                    if isinstance(idx, int):
                        idx = (idx,)
                    idx = tuple(idx)
                    if idx in out:
                        return None, 'element %r is yielded twice' % (idx,)
                    if len(idx) != len(m.shape) or not all(
                            0 <= k < n for k, n in zip(idx, m.shape)):
                        return None, 'yielded index %r is outside shape %r' % (idx, m.shape)
                    out[idx] = v
                if len(out) < prod(m.shape):
                    for idx in indices(m.shape):
                        out.setdefault(idx, m.unspec)
            return out, None
        except Exception as e:
            return None, 'reading it back raised %s: %s' % (type(e).__name__, e)
        finally:
            self.w.ctx = saved

    def verify(self, hid, what, pending=None):
        """Compare a live array with the model.  `pending` maps id(cell) to the
        set of values allowed for it; the value found is adopted."""
        h = self.h[hid]
        self.nverify += 1
        mode = 'elements' if (self.nverify % 3 == 0) else 'index'
        got, err = self.observe(h.obj, h.m, mode)
        if err:
            self.fail(what, 'array h%d (%s): %s' % (hid, h.m.kind, err))
        for idx, v in got.items():
            c = h.m.cells.get(idx)
            want = h.m.unspec if c is None else c.v
            if pending and c is not None and id(c) in pending:
                allowed = pending[id(c)]
                if not any(same(v, a) for a in allowed):
                    self.fail('torn', 'array h%d%r reads %r after a failed assignment; '
                              'allowed: %r' % (hid, list(idx), v, allowed))
                c.v = v
                del pending[id(c)]
            elif not same(v, want):
                self.fail(what, 'array h%d (%s) at %r reads %r, expected %r'
                          % (hid, h.m.kind, list(idx), v, want))

    def unobserved(self):
        """Looking at an array can put right what is wrong with it: in some
        runs the checker looks only now and then, and at the end."""
        return self.lazy and (self.opno * 7 + 3) % self.lazy and \
            self.opno < len(self.plan['ops'])

    def verify_all(self, what, pending=None, first=None):
        if not pending and self.unobserved():
            return
        order = sorted(self.h)
        if first in self.h:
            order.remove(first)
            order.insert(0, first)
        for hid in order:
            self.verify(hid, what, pending)
        if pending:
            # elements no live handle shows: resolve from their memory
            for hid in order:
                for c in self.h[hid].m.cells.values():
                    pending.pop(id(c), None)

    def verify_memory(self):
        """Acknowledged values are in the caller's memory, guards are intact."""
        seen = {}
        for hid in sorted(self.h):
            for c in self.h[hid].m.cells.values():
                if c.home:
                    seen[c.home] = c
            if self.h[hid].m.kind == 'Buffer':
                for c in self.h[hid].m.data:
                    if c.home:
                        seen[c.home] = c
        for (name, pos) in sorted(seen):
            c = seen[(name, pos)]
            v = self.w.devices[name].cells[pos]
            if not same(v, c.v):
                self.fail('not-written-through', 'device %s position %d holds %r, the last '
                          'acknowledged value is %r' % (name, pos, v, c.v))
        for name in sorted(self.w.devices):
            cells = self.w.devices[name].cells
            for pos, v in enumerate(cells):
                if isinstance(v, str) and v.startswith('guard') and v != 'guard%d' % pos:
                    self.fail('guard', 'device %s position %d' % (name, pos))
            if self.snap_guards.get(name) is not None:
                for pos in self.snap_guards[name]:
                    v = cells[pos]
                    if not (isinstance(v, str) and v[:3] in ('gua', 'gap')):
                        self.fail('outside-window', 'device %s position %d, outside every '
                                  'array, was overwritten with %r' % (name, pos, v))

    def note_guards(self):
        self.snap_guards = {
            name: [p for p, v in enumerate(d.cells)
                   if isinstance(v, str) and v[:3] in ('gua', 'gap')]
            for name, d in self.w.devices.items()}

    # -- running one operation with faults ------------------------------------
    def attempt(self, f, faults):
        """-> ('ok', value) | ('exc', exception); fills self.last (Ctx)."""
        ctx = Ctx(faults, self.op_budget())
        self.w.ctx = ctx
        self.last = ctx
        try:
            r = ('ok', f())
        except (HarnessError, Violation):
            raise
        except (Exception, SimCrash, core.SimInterrupt) as e:
            r = ('exc', e)
        finally:
            self.w.ctx = None
        if ctx.oob:
            self.fail('outside-window', 'access to position(s) %r outside the memory' % (ctx.oob[:3],))
        return r

    def op_budget(self):
        """Steps an operation may take: linear in the size of all live arrays and
        quadratic in that of its own, which iterating as a sequence is; several times
        what the slowest operation takes today."""
        if not self.budgeted:
            return None
        n = sum(prod(h.m.shape) for h in self.h.values())
        op = self.plan['ops'][self.opno] if 0 <= self.opno < len(self.plan['ops']) else {}
        n += prod(op.get('shape', ()))
        own = max([prod(self.h[op[k]].m.shape) for k in ('src', 'dst', 'other')
                   if op.get(k) in self.h] + [0])
        return 10000 * (n + 20) + 500 * own * own

    def describe(self, e):
        return '%s: %s' % (type(e).__name__, str(e)[:200])

    def classify(self, r, opname):
        """Common judgement of an outcome.  Returns 'ok', 'failed' or 'crash'."""
        ctx = self.last
        if r[0] == 'ok':
            return 'ok'
        e = r[1]
        if isinstance(e, SimCrash) or any(x[0].startswith('crash') for x in ctx.fired):
            return 'crash'
        if not ctx.fired:
            self.fail('unexpected-exception', '%s raised %s' % (opname, self.describe(e)))
        if not chain_has_injected(e):
            self.fail('fault-masked', '%s met %r but raised the unrelated %s'
                      % (opname, ctx.fired[0][0], self.describe(e)))
        return 'failed'

    # -- plan execution -------------------------------------------------------
    def run(self):
        self.snap_guards = {}
        self.iters, self.finished, self.killed = {}, [], []
        self.last = Ctx()
        mon = core.monitored(self.w) if self.monitor else None
        if mon:
            mon.__enter__()
        try:
            for i, op in enumerate(self.plan['ops']):
                if self.w.cost > COSTLY and not self.plan['config'].get('uncut'):
                    self.w.probe('cut-short')
                    break
                self.opno = i
                before = self.w.steps
                self.counts.append([0, 0])
                self.step(op)
                self.w.log(i, op['op'], self.w.steps - before, [list(x) for x in self.last.fired])
            self.opno = len(self.plan['ops'])
            if self.lazy:
                self.verify_memory()
                self.verify_all('wrong-at-the-end')
            self.end_iters()
        finally:
            if mon:
                mon.__exit__()
        return self

    def step(self, op):
        getattr(self, 'do_' + op['op'])(op)

    def note_counts(self):
        self.counts[-1] = [max(self.counts[-1][0], self.last.acc),
                           max(self.counts[-1][1], self.last.lines)]

    # --- creating operations (all read-only towards existing arrays) ---------
    def create(self, op, f, m, inputs, opname, share_check=False, shared=None,
               reopen=None, homes=None, meta_ok=False):
        """Run a creating operation, with faults then retried."""
        faults = op.get('faults', [])
        r = self.attempt(f, faults)
        fired = list(self.last.fired)
        st = self.classify(r, opname)
        if st == 'ok' and not fired:
            self.note_counts()
        self.check_readonly(op, opname, [self.h[i] for i in inputs])
        if share_check and shared and (self.last.reads or self.last.writes):
            self.fail('slice-touched-data', '%s of h%s accessed stored data at %r although the '
                      'result shares its elements' % (opname, op['src'],
                                                      (self.last.reads + self.last.writes)[:3]))
        if st == 'crash':
            self.crash({})
            return
        if st == 'failed':
            self.verify_all('changed-by-failed-read')
            r = self.attempt(f, [])
            if r[0] == 'exc':
                self.fail('not-repeatable', '%s still fails after the fault stopped: %s'
                          % (opname, self.describe(r[1])))
            self.w.probe('retried-ok')
        obj = r[1]
        self.adopt(op['out'], obj, m, opname, reopen, homes, meta_ok)
        # what it is built from may keep serving its reads (shared elements,
        # shared index arrays)
        self.h[op['out']].devs = tuple(sorted({d for i in inputs for d in self.h[i].devs}))
        self.h[op['out']].win = frozenset().union(*(self.h[i].win for i in inputs))
        if not self.cold:
            self.verify_all('changed-by-read', None)

    def adopt(self, hid, obj, m, opname, reopen=None, homes=None, meta_ok=False):
        if homes:
            for idx, home in homes.items():
                c = m.cells.get(idx)
                if c is not None:
                    c.home = home
        if self.cold:
            # leave the object as constructed: nothing may warm its state up
            self.h[hid] = Handle(obj, m, reopen, meta_ok)
            return
        if m.sparse:
            self.adopt_explicit(hid, obj, m, opname)
        for mode in ('index', 'elements') if not self.unobserved() else ():
            got, err = self.observe(obj, m, mode)
            if err:
                self.fail('wrong-result', 'result of %s (%s, h%d): %s' % (opname, m.kind, hid, err))
            for idx, v in got.items():
                if not same(v, m.read(idx)):
                    self.fail('wrong-result', 'result of %s (%s, h%d) at %r by %s is %r, expected %r'
                              % (opname, m.kind, hid, list(idx), mode, v, m.read(idx)))
        self.h[hid] = Handle(obj, m, reopen, meta_ok)

    def adopt_explicit(self, hid, obj, m, opname):
        """Entries that are stored although their value is the unspecified one
        are legal either way; follow the implementation."""
        try:
            idxs = [tuple(i) for i, _ in obj.elements()]
        except Exception as e:
            self.fail('wrong-result', 'elements() of the result of %s (%s, h%d) raised %s'
                      % (opname, m.kind, hid, self.describe(e)))
        present = set(idxs)
        for idx in list(m.cells):
            if idx not in present and m.cells[idx].v == m.unspec:
                del m.cells[idx]
        for c in m.cells.values():
            c.maybe = False
        for idx in idxs:
            if idx not in m.cells and all(0 <= k < n for k, n in zip(idx, m.shape)):
                # must read as unspecified to be legal; verified by the caller
                m.cells[idx] = Cell(m.unspec)
        if self.check_order:
            if idxs != sorted(idxs):
                self.fail('order', 'stored indices of %s (%s, h%d) are not in row-major order: %r'
                          % (opname, m.kind, hid, idxs[:6]))
            if len(idxs) != len(present):
                self.fail('order', 'stored indices of %s repeat' % opname)
            if obj.size != len(idxs):
                self.fail('order', '%s: size is %r but %d elements are stored'
                          % (opname, obj.size, len(idxs)))

    def check_readonly(self, op, opname, handles=()):
        if self.last.writes:
            self.fail('read-wrote', '%s wrote device position(s) %r' % (opname, self.last.writes[:3]))
        self.confine_check(opname, handles, [])

    def have(self, *ids):
        return all(i in self.h for i in ids)

    def do_mk(self, op):
        m = model_mk(op)
        kind = op['kind']
        shape = tuple(op['shape'])
        if op['how'] == 'list':
            flat = dict(zip(indices(shape), op['vals']))
            from .model import to_nested
            nested = to_nested(flat, shape)
            C = self.cls(kind)
            kw = {}
            if op['unspec'] is not None:
                kw['unspecified'] = op['unspec']
            if kind == 'DM':
                kw['storage_class'] = self.cls(op['store'])
                if not op.get('defaults'):
                    kw['dimensions'] = tuple(op['dims'])
                    kw['partitioning'] = tuple(op['part'])
            self.create(op, lambda: C.fromobject(nested, **kw), m, (), '%s.fromobject' % kind,
                        meta_ok=True)
            return
        full = m.full()
        self.made = []
        make, homes, extra = self.build_dev(kind, shape, full, op, m.groups, op.get('store'))
        self.note_guards()
        self.last = Ctx()
        obj = make()
        self.adopt(op['out'], obj, m, 'constructing', make, homes, meta_ok=True)
        self.h[op['out']].devs = tuple(sorted({h[0] for h in list(homes.values()) + extra}))
        self.h[op['out']].win = frozenset(self.made)
        self.w.probe('windows')

    def do_slice(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        if 'win' in op:
            a, b = op['win'][:2]
            m, shared = h.m.buffer_window(a, b), True
            f = (lambda: h.obj[slice(*op['win'])])
        else:
            m, shared = h.m.slice(op['ix'])
            ri = real_index(op['ix'], op.get('form'))
            f = (lambda: h.obj[ri])
        if shared:
            self.w.probe('shared-slices')
        self.create(op, f, m, (op['src'],), 'slicing h%d[%s]' % (op['src'], op.get('ix', op.get('win'))),
                    share_check=True, shared=shared)

    def do_wrap(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        m = model_wrap(op, h.m)
        shape = tuple(op['shape'])
        if op['kind'] == 'Strided':
            st = c_strides(shape)

            def f(obj=None):
                return self.cls('Strided')(shape, st, obj if obj is not None else h.obj)
        else:
            groups = m.groups
            rstr = tuple(tuple(prod(shape[d] for d in g[i + 1:]) for i in range(len(g)))
                         for g in groups)
            roff = tuple(op['roff'])

            def f(obj=None):
                return self.cls('DM')(shape, groups, rstr, roff, obj if obj is not None else h.obj)
        reopen = None
        if h.reopen is not None:
            reopen = (lambda: f(h.reopen()))
        self.create(op, f, m, (op['src'],), 'wrapping h%d' % op['src'], reopen=reopen)

    def do_copy(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        m = h.m.snapshot(op.get('unspec', MISSING))
        kw = {'unspecified': op['unspec']} if 'unspec' in op else {}
        self.create(op, lambda: h.obj.copy(**kw), m, (op['src'],), 'copying h%d' % op['src'])

    def do_conv(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        m = model_conv(op, h.m)
        to = op['to']
        kw = {'unspecified': op['unspec']} if 'unspec' in op else {}
        if to == 'DM':
            kw.update(dimensions=tuple(op['dims']), partitioning=tuple(op['part']),
                      storage_class=self.cls(op['store']))
        if op['via'] == 'as':
            def f():
                return getattr(h.obj, 'as_' + to)(**kw)
        else:
            def f():
                return self.cls(to).fromobject(h.obj, **kw)
        flatten = to == 'Buffer' and len(h.m.shape) != 1
        opname = 'converting h%d (%s) to %s' % (op['src'], h.m.kind, to)
        if 'unspec' not in op and h.m.kind == to and to != 'DM':
            # asking for the format it already has may return the array itself
            faults = op.get('faults', [])
            r = self.attempt(f, faults)
            st = self.classify(r, opname)
            self.check_readonly(op, opname, [h])
            if st == 'crash':
                return self.crash({})
            if st == 'failed':
                self.verify_all('changed-by-failed-read')
                r = self.attempt(f, [])
                if r[0] == 'exc':
                    self.fail('not-repeatable', '%s still fails: %s' % (opname, self.describe(r[1])))
            elif not self.last.fired:
                self.note_counts()
            if r[1] is h.obj:
                m = h.m
            self.adopt(op['out'], r[1], m, opname, h.reopen if r[1] is h.obj else None)
            self.h[op['out']].devs = h.devs
            self.h[op['out']].win = h.win
            return
        self.create(op, f, m, (op['src'],), opname, meta_ok=not flatten)

    # --- reading operations ---------------------------------------------------
    def read_op(self, op, f, check, opname):
        """f() -> result; check(result) -> None | error text"""
        faults = op.get('faults', [])
        r = self.attempt(f, faults)
        st = self.classify(r, opname)
        self.check_readonly(op, opname, [self.h[op[k]] for k in ('src', 'other') if k in op])
        if st == 'crash':
            return self.crash({})
        if st == 'failed':
            self.verify_all('changed-by-failed-read')
            r = self.attempt(f, [])
            if r[0] == 'exc':
                self.fail('not-repeatable', '%s still fails after the fault stopped: %s'
                          % (opname, self.describe(r[1])))
            self.w.probe('retried-ok')
        elif not self.last.fired:
            self.note_counts()
        err = check(r[1])
        if err:
            self.fail('wrong-result' if not self.last.fired else 'fault-swallowed',
                      '%s: %s' % (opname, err))
        return r[1]

    def do_get(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        idx = tuple(x if isinstance(x, int) else None for x in resolve(op['ix'], h.m.shape))
        want = h.m.read(idx)
        ri = real_index(op['ix'], op.get('form'))
        self.read_op(op, lambda: h.obj[ri],
                     lambda v: None if same(v, want) else 'returned %r, expected %r' % (v, want),
                     'reading h%d%r' % (op['src'], list(idx)))

    def do_elements(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]

        def check(pairs):
            d = {}
            for i, v in pairs:
                i = (i,) if isinstance(i, int) else tuple(i)
                if i in d:
                    return 'element %r is yielded twice' % (i,)
                d[i] = v
            for i, v in d.items():
                if i not in full or not same(v, full[i]):
                    return 'yielded %r: %r, expected %r' % (i, v, full.get(i, 'no such element'))
            for i, v in full.items():
                if i not in d and not (v == h.m.unspec):
                    return 'element %r is missing' % (i,)
        full = h.m.full()
        self.read_op(op, lambda: list(h.obj.elements()), check, 'iterating h%d' % op['src'])

    def do_iterseq(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        n = h.m.shape[0]

        how = op.get('how', 'list')
        if how in ('deep', 'both', 'member'):
            return self.iterate_inside(op, h, how)

        def f():
            if how == 'reversed':
                return list(itertools.islice(reversed(h.obj), n + 3))[::-1], len(h.obj)
            if how == 'zip':
                # two traversals of one array, in step
                two = list(itertools.islice(zip(h.obj, h.obj), n + 3))
                self.w.probe('traversals-in-step')
                return [a if k % 2 else b for k, (a, b) in enumerate(two)], len(h.obj)
            return list(itertools.islice(iter(h.obj), n + 3)), len(h.obj)

        def check(r):
            items, ln = r
            if ln != n:
                return 'len() is %r, expected %r' % (ln, n)
            if len(items) != n:
                return 'produced %s items, its length is %d' % (
                    len(items) if len(items) < n + 3 else 'at least %d' % len(items), n)
            if len(h.m.shape) == 1:
                for k, v in enumerate(items):
                    if not same(v, h.m.read((k,))):
                        return 'item %d is %r, expected %r' % (k, v, h.m.read((k,)))
            else:
                for k, o in enumerate(items):
                    sm, _ = h.m.slice([['i', k]])
                    got, err = self.observe(o, sm, 'index')
                    if err:
                        return 'item %d: %s' % (k, err)
                    for i, v in got.items():
                        if not same(v, sm.read(i)):
                            return 'item %d at %r is %r, expected %r' % (k, i, v, sm.read(i))
        self.read_op(op, f, check, 'iterating h%d as a sequence' % op['src'])

    def iterate_inside(self, op, h, how):
        """Traversals inside traversals: rows and the elements of the rows, the rows of an array
        while its elements are iterated over, membership of each element."""
        shape = h.m.shape

        def walk(o, depth, at, out):
            for k, item in enumerate(itertools.islice(iter(o), shape[depth] + 3)):
                if k >= shape[depth]:
                    return 'the sequence of axis %d at %r does not end' % (depth, at)
                if depth + 1 == len(shape):
                    out[at + (k,)] = item
                else:
                    err = walk(item, depth + 1, at + (k,), out)
                    if err:
                        return err

        def f():
            out = {}
            if how == 'deep':
                return out, walk(h.obj, 0, (), out)
            if how == 'both':
                err = None
                for k, _ in enumerate(h.obj.elements()):
                    if k < 3:
                        out = {}
                        err = err or walk(h.obj, 0, (), out)
                return (out if out else None), err
            if len(shape) == 1:
                for k in range(shape[0]):
                    v = h.obj[k]
                    if v == v and v not in h.obj:
                        return None, '%r is item %d but not in the sequence' % (v, k)
            return None, None

        def check(r):
            out, err = r
            if err or out is None:
                return err
            if len(out) != prod(shape):
                return 'produced %d elements, its shape is %r' % (len(out), shape)
            for i, v in out.items():
                if not same(v, h.m.read(i)):
                    return 'element %r is %r, expected %r' % (i, v, h.m.read(i))
        self.read_op(op, f, check, 'iterating h%d as a sequence (%s)' % (op['src'], how))
        self.w.probe('traversals-inside-traversals')

    def do_badindex(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        ri = real_index(op['ix'])
        if op['write']:
            def f():
                h.obj[ri] = 5
        else:
            def f():
                return h.obj[ri]
        r = self.attempt(f, [])
        if r[0] == 'ok':
            self.fail('bad-index-accepted', '%s h%d%r, outside shape %r, was accepted'
                      % ('assigning' if op['write'] else 'reading', op['src'],
                         op['ix'], h.m.shape))
        self.verify_all('changed-by-refused-index')

    def do_short(self, op):
        if not self.have(op['dst']):
            return
        h = self.h[op['dst']]
        shape, pairs, _ = select(op['ix'], h.m.shape)
        cut = op['cut']
        # only if an element that is actually stored lacks its value
        lacking = False
        for ni, oi in pairs():
            if oi in h.m.cells and not h.m.cells[oi].maybe and any(k >= c for k, c in zip(ni, cut)):
                lacking = True
        if not lacking:
            return
        ri = real_index(op['ix'], op.get('form'))
        val = op['val']

        def f():
            h.obj[ri] = val
        r = self.attempt(f, [])
        if r[0] == 'ok':
            self.fail('short-source-accepted', 'assigning h%d[%r] from a source of shape %r was accepted'
                      % (op['dst'], op['ix'], cut))
        self.w.probe('short-source')
        self.verify_all('changed-by-incomplete-source', first=op['dst'])
        self.verify_memory()

    def do_inspect(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        what = op['what']
        o = None
        if what in ('equal', 'eq', 'ne'):
            if not self.have(op['other']):
                return
            o = self.h[op['other']]
        want = MISSING
        nan = what in ('eq', 'ne', 'eqcanon', 'equal_list') and has_nan(h.m)
        if what == 'equal':
            want = expected_equal(h.m, o.m)
            f = (lambda: h.obj.equal(o.obj))
        elif what == 'equal_list':
            full = h.m.full()
            if not full or nan:
                return
            if h.m.unspec is not None and any(v is None for v in full.values()):
                return           # in a list None says unspecified
            key = sorted(full)[op['at'] % len(full)]
            if any(v == h.m.unspec for v in full.values()):
                if h.m.sparse:
                    # which entries a list specifies is not comparable
                    return
            if op['off']:
                full[key] = 'other'
            from .model import to_nested
            nested = to_nested(full, h.m.shape)
            want = not op['off']
            f = (lambda: h.obj.equal(nested))
        elif what in ('eq', 'ne'):
            if what == 'eq':
                def f():
                    return h.obj == o.obj
            else:
                def f():
                    return h.obj != o.obj
            if (h is o or h.obj is o.obj) and not nan:
                want = what == 'eq'
        elif what == 'eqcanon':
            if not h.m.sparse or nan or any(c.v == h.m.unspec for c in h.m.cells.values()):
                return
            if 0 in h.m.shape:
                return           # a nested list cannot say what shape it has
            u = h.m.unspec
            if u is not None and any(v is None for v in h.m.full().values()):
                return
            nested = h.m.nested()
            kw = {} if u is None else {'unspecified': u}
            kinds = [k for k in SPARSE if isinstance(h.obj, self.cls(k))]
            C = self.cls(kinds[0])
            canon = C.fromobject(nested, **kw)
            want = True
            f = (lambda: h.obj == canon)
        elif what == 'repr':
            f = (lambda: repr(h.obj))
        elif what == 'str':
            f = (lambda: str(h.obj))
        elif what == 'meta':
            f = (lambda: (len(h.obj), tuple(h.obj.shape), h.obj.size, h.obj.is_full()))
        else:
            raise HarnessError(what)

        def check(r):
            if what in ('repr', 'str'):
                if not isinstance(r, str) or not r:
                    return 'returned %r' % (r,)
                return printed_wrong(h.m, what, r)
            if what == 'meta':
                if r[0] != h.m.shape[0] or r[1] != h.m.shape:
                    return 'len/shape are %r, expected %r' % (r[:2], h.m.shape)
                if h.m.kind == 'DM' and (not h.meta_ok or inner_is_sparse(h.m.inner)):
                    # the size of a mapped view is that of its storage
                    return None
                if self.cold and h.m.sparse:
                    return None
                stored = len(h.m.cells)
                if r[2] != stored or bool(r[3]) != (stored == prod(h.m.shape)):
                    return 'size/is_full are %r, expected %r' % (
                        r[2:], (stored, stored == prod(h.m.shape)))
                return None
            if want is not MISSING:
                return None if bool(r) == want else 'answered %r, expected %r' % (r, want)
            if r not in (True, False):
                return 'answered %r' % (r,)
            if what == 'eq' and r or what == 'ne' and not r:
                if not (same_dict(h.m.full(), o.m.full()) and h.m.shape == o.m.shape):
                    return 'arrays with different elements compare equal'
            return None
        name = {'equal': 'equal()', 'equal_list': 'equal(list)', 'eq': '==', 'ne': '!=',
                'eqcanon': '== canonical form'}.get(what, what + '()')
        opname = '%s of h%d (%s)%s' % (name, op['src'], h.m.kind,
                                       ' and h%d (%s)' % (op['other'], o.m.kind) if o else '')
        mode = op.get('stdout', 'ok')
        out = FaultyStdout(mode)
        saved, sys.stdout = sys.stdout, None if mode == 'none' else out
        g, printed = f, []
        try:
            if mode != 'ok':
                def f():
                    try:
                        r = g()
                        if what in ('repr', 'str'):
                            printed.append(r)
                        return r
                    except (ValueError, OSError) as e:
                        if out.written and not chain_has_injected(e):
                            raise OutputDependent(str(e))
                        raise
            try:
                self.read_op(op, f, check, opname)
            except Violation as v:
                if 'OutputDependent' in v.detail:
                    raise Violation('output-dependent', '%s failed because standard output is %s'
                                    % (opname, mode), v.opno)
                raise
        finally:
            sys.stdout = saved
        if mode != 'ok':
            self.w.count_fault('stdout-' + mode)
            if out.written:
                self.w.probe('stdout-written')
        if printed:
            self.print_again(g, printed[-1], mode, opname)
        if out.written:
            self.fail('output-written', '%s wrote %d characters to standard output'
                      % (opname, out.written))
        self.verify_all('changed-by-inspection')

    def print_again(self, f, text, mode, opname):
        """The same with a stream that works."""
        saved, sys.stdout = sys.stdout, FaultyStdout('ok')
        try:
            again = f()
        except Exception:
            return               # judged elsewhere
        finally:
            sys.stdout = saved
        if again != text:
            self.fail('output-dependent', '%s shows %r while standard output is %s, else %r'
                      % (opname, text[:200], mode, again[:200]))

    # --- assigning --------------------------------------------------------------
    def do_set(self, op):
        if not self.have(op['dst']):
            return
        if 'src' in op and not self.have(op['src']):
            return
        rows = op.get('rows', ())
        if not all(self.have(r['h']) for r in rows if isinstance(r, dict)):
            return
        h = self.h[op['dst']]
        ri = real_index(op['ix'], op.get('form'))
        sel = resolve(op['ix'], h.m.shape)
        elem = all(isinstance(s, int) for s in sel)

        def compute():
            """(cell, new value) pairs, from the model as it is now"""
            updates = []
            if elem:
                c = h.m.cells.get(tuple(sel))
                if c is not None:
                    if c.maybe:
                        return None
                    updates.append((c, op['val']))
                return updates
            shape, pairs, _ = select(op['ix'], h.m.shape)
            sm = self.h[op['src']].m if 'src' in op else None
            if sm is not None and sm.shape != shape:
                return None
            if rows and (len(rows) != shape[0] or any(
                    self.h[r['h']].m.shape != shape[1:] for r in rows if isinstance(r, dict))):
                return None

            def at(ni):
                if sm is not None:
                    return sm.read(ni)
                if not rows:
                    return nested_get(op['val'], ni)
                r = rows[ni[0]]
                return self.h[r['h']].m.read(ni[1:]) if isinstance(r, dict) else \
                    nested_get(r, ni[1:])
            for ni, oi in pairs():
                c = h.m.cells.get(oi)
                if c is None:
                    continue
                if c.maybe:
                    return None
                updates.append((c, at(ni)))
            return updates
        srcs = [self.h[op['src']]] if 'src' in op else []
        srcs += [self.h[r['h']] for r in rows if isinstance(r, dict)]
        updates = compute()
        if updates is None:
            return
        if rows:
            value = [self.h[r['h']].obj if isinstance(r, dict) else r for r in rows]
        else:
            value = srcs[0].obj if srcs else op.get('val')

        def f():
            h.obj[ri] = value
        opname = 'assigning h%d[%r]%s' % (op['dst'], op['ix'],
                                          ' from h%d' % op['src'] if 'src' in op else
                                          ' from a list of arrays' if rows else '')
        faults = op.get('faults', [])
        r = self.attempt(f, faults)
        fired = list(self.last.fired)
        st = self.classify(r, opname)
        self.confine_check(opname, [h] + srcs, updates)
        wrote = list(self.last.writes)
        if st == 'ok':
            if not fired:
                self.note_counts()
            for c, v in updates:
                c.v = v
            self.acked += 1
            self.verify_memory()
            self.verify_all('wrong-after-assignment', first=op['dst'])
            return
        allowed = {id(c): [c.v, v] for c, v in updates}
        if st == 'failed' and srcs and self.source_failed(fired, srcs, h):
            self.w.probe('source-read-failed')
            self.verify_all('changed-by-incomplete-source', first=op['dst'])
            allowed = {}
        if st == 'crash':
            return self.crash(allowed)
        self.w.probe('partial-write' if wrote else 'write-failed-early')
        n = len(allowed)
        self.verify_all('changed-by-failed-assignment', allowed, first=op['dst'])
        self.verify_memory()
        if n and op.get('retry', True):
            updates = compute()
            r = self.attempt(f, [])
            if r[0] == 'exc':
                self.fail('not-repeatable', '%s still fails after the fault stopped: %s'
                          % (opname, self.describe(r[1])))
            for c, v in updates:
                c.v = v
            self.verify_memory()
            self.verify_all('wrong-after-reissue', first=op['dst'])
            self.w.probe('retried-ok')

    def source_failed(self, fired, srcs, dst):
        """Did the fault hit a read that can only serve the source?"""
        label, name, pos, rw = fired[0]
        return rw == 'r' and any(name in s.devs for s in srcs) and name not in dst.devs

    def confine_check(self, opname, handles, updates):
        """Every single access of the last operation stayed in the windows of
        the arrays involved, every write in the addressed elements."""
        if not self.confine:
            return
        writable = {c.home for c, _ in updates if c.home}
        for a in self.last.writes:
            if a not in writable:
                self.fail('wrote-unaddressed', '%s wrote device %s position %d, which belongs to '
                          'no addressed element' % (opname, a[0], a[1]))
        for a in self.last.reads:
            if not any(a in h.win for h in handles):
                self.fail('outside-window', '%s read device %s position %d, outside the '
                          'arrays involved' % (opname, a[0], a[1]))
        if self.last.reads or self.last.writes:
            self.w.probe('confined-ops')

    # --- crash and reopen ---------------------------------------------------------
    def crash(self, allowed):
        """All objects die; arrays on devices are reopened by their constructors."""
        self.crashed += 1
        self.w.probe('crashes')
        keep = {}
        for hid in sorted(self.h):
            h = self.h[hid]
            if h.reopen is not None:
                keep[hid] = h
        self.h = {}
        for hid, h in keep.items():
            try:
                obj = h.reopen()
            except Exception as e:
                self.fail('reopen', 'reopening h%d raised %s' % (hid, self.describe(e)))
            self.h[hid] = Handle(obj, h.m, h.reopen, h.meta_ok, h.devs, h.win)
        self.verify_all('lost-after-crash', allowed)
        self.verify_memory()

    def do_crash(self, op):
        self.last = Ctx()
        self.crash({})

    def do_drop(self, op):
        self.last = Ctx()
        self.h.pop(op['h'], None)

    # --- live iterators -----------------------------------------------------------
    def do_iter(self, op):
        if not self.have(op['src']):
            return
        h = self.h[op['src']]
        if op['how'] == 'seq':
            f = (lambda: iter(h.obj))
        else:
            f = (lambda: iter(h.obj.elements()))
        r = self.attempt(f, [])
        if r[0] == 'exc':
            self.fail('unexpected-exception', 'iterating h%d raised %s'
                      % (op['src'], self.describe(r[1])))
        self.check_readonly(op, 'making an iterator')
        self.iters[op['it']] = dict(it=r[1], h=h, how=op['how'], seen=[], done=False, src=op['src'])

    def do_next(self, op):
        t = self.iters.get(op['it'])
        if t is None:
            return
        faults = op.get('faults', [])
        m = t['h'].m
        acc = lines = 0
        for _ in range(op['n']):
            if t['done']:
                break
            r = self.attempt(lambda: next(t['it']), faults)
            fired = list(self.last.fired)
            acc += self.last.acc
            lines += self.last.lines
            faults = []
            self.check_readonly(op, 'advancing an iterator', [t['h']])
            if r[0] == 'exc' and isinstance(r[1], StopIteration):
                t['done'] = True
                self.check_complete(op['it'], t)
                break
            st = self.classify(r, 'advancing iterator %d of h%d' % (op['it'], t['src']))
            if st == 'failed':
                # a killed iterator is not used again
                del self.iters[op['it']]
                self.w.probe('iterator-killed')
                self.killed.append((t, fired[0][0]))
                break
            if t['how'] == 'seq':
                idx, v = (len(t['seen']),), r[1]
            else:
                idx, v = r[1]
                idx = (idx,) if isinstance(idx, int) else tuple(idx)
            if idx in t['seen']:
                self.fail('iterated-twice', 'iterator %d of h%d (%s) produced %r a second time'
                          % (op['it'], t['src'], m.kind, idx))
            if len(idx) != len(m.shape) or not all(0 <= k < n for k, n in zip(idx, m.shape)):
                self.fail('iterated-wrong', 'iterator %d of h%d (%s) produced index %r'
                          % (op['it'], t['src'], m.kind, idx))
            if not same(v, m.read(idx)):
                self.fail('iterated-wrong', 'iterator %d of h%d (%s) produced %r for %r, which is '
                          'now %r' % (op['it'], t['src'], m.kind, v, idx, m.read(idx)))
            t['seen'].append(idx)
            self.w.probe('iterator-steps')
            if len(self.iters) > 1:
                self.w.probe('iterator-steps-interleaved')
        self.counts[-1] = [acc, lines]
        self.verify_all('changed-by-iteration')

    def check_complete(self, it, t):
        m = t['h'].m
        stored = ({i for i, c in m.cells.items() if not c.maybe}
                  if (m.sparse or m.kind == 'DM') else set(indices(m.shape)))
        missing = sorted(stored - set(t['seen']))
        if missing:
            self.fail('iterated-missing', 'iterator %d of h%d (%s) ended without %r'
                      % (it, t['src'], m.kind, missing[0]))
        if len(t['seen']) > prod(m.shape):
            self.fail('iterated-twice', 'iterator %d of h%d' % (it, t['src']))
        self.w.probe('iterators-completed')
        self.finished.append((it, t))

    def do_abandon(self, op):
        t = self.iters.pop(op['it'], None)
        self.last = Ctx()
        if t is None:
            return
        self.finished.append((op['it'], t))
        if op.get('close') and hasattr(t['it'], 'close'):
            r = self.attempt(t['it'].close, [])
            if r[0] == 'exc':
                self.fail('unexpected-exception', 'closing an iterator raised %s'
                          % self.describe(r[1]))
        t['it'] = None
        self.verify_all('changed-by-iteration')
        self.w.probe('iterators-abandoned')

    def end_iters(self):
        """Every iterator must have followed the order of an undisturbed one."""
        todo = self.finished + sorted(self.iters.items()) + [(0, t) for t, _ in self.killed]
        for it, t in todo:
            if t['how'] == 'seq':
                continue
            ref = [(i,) if isinstance(i, int) else tuple(i)
                   for i, _ in t['h'].obj.elements()]
            if t['seen'] != ref[:len(t['seen'])] or (t['done'] and len(ref) != len(t['seen'])):
                self.fail('iterated-order', 'iterator %d of h%d (%s) went %r, undisturbed it goes %r'
                          % (it, t['src'], t['h'].m.kind, t['seen'], ref))


class OutputDependent(Exception):
    pass


def same_dict(a, b):
    return set(a) == set(b) and all(a[k] == b[k] or a[k] != a[k] and b[k] != b[k] for k in a)


def printed_wrong(m, what, text):
    """The values a print of a dense array shows, in order, unless abbreviated."""
    if '.....' in text or not all(m.shape):
        return None
    full = m.full()
    if what == 'str' and m.kind == 'Strided' and len(m.shape) <= 2:
        show = str
    elif m.kind == 'Buffer':
        show = repr
    else:
        return None
    pos = 0
    for i in indices(m.shape):
        s = show(full[i])
        k = text.find(s, pos)
        if k < 0:
            return 'shows %r, which lacks %s in its place' % (text[:200], s)
        pos = k + len(s)
    return None


def dense_like(m):
    return m.kind in ('Buffer', 'Strided', 'DM')


def agree(a, b):
    """Could reading both by one rule or another give the same values?"""
    for i in indices(a.shape):
        u, v = a.read(i), b.read(i)
        if not (same(u, v) or (u == a.unspec and v == b.unspec)):
            return False
    return True


def expected_equal(a, b):
    """True/False when the answer is determined by the elements, else MISSING."""
    if has_nan(a) or has_nan(b):
        return MISSING
    if a.kind == 'Buffer' or b.kind == 'Buffer':
        if a.kind != b.kind:
            return MISSING
    la, lb = a.logical(), b.logical()
    if not same_dict(la, lb):
        if a.shape == b.shape and not same(a.unspec, b.unspec) and agree(a, b):
            # one array's value is the other's unspecified one
            return MISSING
        return False
    if a.shape != b.shape:
        return MISSING
    if dense_like(a) and dense_like(b):
        return same_dict(a.full(), b.full())
    fa, fb = len(la) == prod(a.shape), len(lb) == prod(b.shape)
    if fa and fb:
        return True
    if a.sparse and b.sparse:
        if any(c.v == a.unspec for c in a.cells.values()) or \
                any(c.v == b.unspec for c in b.cells.values()):
            return MISSING
        return True
    return MISSING
