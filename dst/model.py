"""Reference model: arrays are maps from index tuples to shared cells.

A view shares cells with its base; a snapshot gets new ones.  Nothing of the
code under test is used here.
"""
import itertools

MISSING = object()


class Cell:
    __slots__ = ('v', 'home', 'cid', 'maybe')

    def __init__(self, v, home=None, cid=None, maybe=False):
        self.v = v
        self.maybe = maybe    # a snapshot of a sparse array may or may not store it
        self.home = home      # (device name, position) of the backing memory
        self.cid = cid


def prod(seq):
    r = 1
    for x in seq:
        r *= x
    return r


def indices(shape):
    return itertools.product(*map(range, shape))


def c_strides(shape):
    return tuple(prod(shape[i + 1:]) for i in range(len(shape)))


def pyslice(s):
    return slice(*s[1:4])


def resolve(ix, shape):
    """Per-axis selection for an index spec (list of ['i',k] | ['s',a,b,c] | ['n']).

    Returns a list with, per axis, an int (fixed) or a list of positions."""
    out = []
    for d, n in enumerate(shape):
        it = ix[d] if d < len(ix) else ['n']
        if it[0] == 'i':
            k = it[1]
            if not -n <= k < n:
                raise IndexError('axis %d size %d index %d' % (d, n, k))
            out.append(k % n)
        elif it[0] == 's':
            out.append(list(range(n))[pyslice(it)])
        else:
            out.append(list(range(n)))
    return out


def select(ix, shape):
    """-> (new_shape, iterator of (new index, old index), fixed axes)"""
    sel = resolve(ix, shape)
    free = [d for d in range(len(shape)) if not isinstance(sel[d], int)]
    new_shape = tuple(len(sel[d]) for d in free)

    def pairs():
        for ni in indices(new_shape):
            old = list(sel)
            for d, k in zip(free, ni):
                old[d] = sel[d][k]
            yield ni, tuple(old)
    return new_shape, pairs, [d for d in range(len(shape)) if isinstance(sel[d], int)]


def real_index(ix, form='tuple'):
    """The Python object to index the real array with."""
    t = tuple(it[1] if it[0] == 'i' else pyslice(it) if it[0] == 's' else None for it in ix)
    if form == 'scalar' and len(t) == 1:
        return t[0]
    return t


SPARSE = ('COO', 'FlatCOO', 'CSR')


class M:
    """Model of one array."""

    def __init__(self, kind, shape, cells, unspec, inner=None, groups=None,
                 data=None, off=0):
        self.kind = kind
        self.shape = tuple(shape)
        self.cells = cells          # index tuple -> Cell (stored elements)
        self.unspec = unspec
        self.inner = inner          # DM: 'dense' | 'sparse' | ('DM', groups, inner)
        self.groups = groups        # DM: tuple of tuples of own dims
        self.data = data            # Buffer: all cells of the memory
        self.off = off

    @property
    def sparse(self):
        return self.kind in SPARSE

    def read(self, idx):
        c = self.cells.get(idx)
        return self.unspec if c is None else c.v

    def full(self):
        return {i: self.read(i) for i in indices(self.shape)}

    def logical(self):
        return {i: v for i, v in self.full().items() if not (v == self.unspec)}

    def nested(self):
        return to_nested(self.full(), self.shape)

    # -- slicing ------------------------------------------------------------
    def slice(self, ix):
        """-> (M, shared: bool)"""
        new_shape, pairs, fixed = select(ix, self.shape)
        shared = self.slice_shares(fixed)
        cells = {}
        for ni, oi in pairs():
            c = self.cells.get(oi)
            if c is not None:
                cells[ni] = c if shared else Cell(c.v, maybe=self.optional(c.v, self.unspec))
        kind = self.kind
        groups = inner = None
        if kind == 'CSR' and len(new_shape) != 2:
            kind = 'COO'
        if kind == 'DM':
            groups, inner = dm_slice_desc(self.groups, self.inner, fixed)
        return M(kind, new_shape, cells, self.unspec, inner, groups), shared

    def optional(self, v, unspec):
        """May a snapshot leave this element out?  Only a sparse one whose
        stored value happens to be the unspecified one."""
        return v == unspec and (self.sparse or (self.kind == 'DM' and inner_is_sparse(self.inner)))

    def slice_shares(self, fixed):
        if self.kind == 'Strided':
            return True
        if self.kind == 'DM':
            return dm_shares(self.groups, self.inner, set(fixed))
        return False

    def buffer_window(self, a, b):
        """Slice of a buffer: positions relative to its own start."""
        assert self.kind == 'Buffer'
        start = self.off + (0 if a is None else a)
        stop = self.off + (self.shape[0] if b is None else b)
        size = max(0, stop - start)
        return buffer_model(self.data, start, size, self.unspec)

    def snapshot(self, unspec=MISSING):
        """copy(): same structure, new cells."""
        u = self.unspec if unspec is MISSING else unspec
        cells = {}
        for i, c in self.cells.items():
            v = u if c.v == self.unspec else c.v
            cells[i] = Cell(v, maybe=self.optional(v, u))
        if self.kind == 'Buffer':
            lst = [cells[(i,)] for i in range(self.shape[0])]
            return buffer_model(lst, 0, len(lst), u)
        return M(self.kind, self.shape, cells, u, self.inner, self.groups)

    def convert(self, kind, unspec=MISSING, groups=None, store=None):
        return from_full(kind, self.shape, self.full(), self.unspec,
                         self.unspec if unspec is MISSING else unspec, groups, store)


def buffer_model(data, off, size, unspec):
    cells = {(i,): data[off + i] for i in range(size)}
    return M('Buffer', (size,), cells, unspec, data=data, off=off)


def inner_desc(store, m, inner_store=None):
    """Descriptor of the storage of a DM built with storage class `store` of
    dimensionality m."""
    if store in ('Strided', 'Buffer'):
        return 'dense'
    if store == 'DM':
        # an inner DM with default parameters over Strided
        part = () if m == 1 else (m - 1,)
        pos = (0,) + part + (m,)
        return ('DM', tuple(tuple(range(pos[k], pos[k + 1])) for k in range(len(part) + 1)),
                'dense')
    return 'sparse'


def inner_is_sparse(inner):
    return inner == 'sparse' or (isinstance(inner, tuple) and inner_is_sparse(inner[2]))


def dm_shares(groups, inner, fixed):
    """Does slicing with `fixed` axes keep sharing the stored elements?"""
    dropped = {k for k, g in enumerate(groups) if all(d in fixed for d in g)}
    if not dropped or inner == 'dense':
        return True
    if inner == 'sparse':
        return False
    return dm_shares(inner[1], inner[2], dropped)


def dm_slice_desc(groups, inner, fixed):
    fixed = set(fixed)
    renum = {}
    for g in sorted(d for g in groups for d in g):
        if g not in fixed:
            renum[g] = len(renum)
    new_groups = []
    dropped = []
    for k, g in enumerate(groups):
        t = tuple(renum[d] for d in g if d not in fixed)
        if t:
            new_groups.append(t)
        else:
            dropped.append(k)
    if dropped and isinstance(inner, tuple):
        g2, i2 = dm_slice_desc(inner[1], inner[2], dropped)
        inner = ('DM', g2, i2)
    return tuple(new_groups), inner


def dm_groups(n, dims, part):
    pos = (0,) + tuple(part) + (n,)
    return tuple(tuple(dims[pos[k]:pos[k + 1]]) for k in range(len(part) + 1))


def reduce_pos(shape, group, idx):
    r = 0
    for d in group:
        r = r * shape[d] + idx[d]
    return r


def from_full(kind, shape, full, old_unspec, unspec, groups=None, store=None):
    def conv(v):
        return unspec if v == old_unspec else v
    vals = {i: conv(v) for i, v in full.items()}
    if kind == 'Buffer':
        lst = [Cell(vals[i]) for i in indices(shape)]
        return buffer_model(lst, 0, len(lst), unspec)
    sparse = kind in SPARSE or (kind == 'DM' and store in SPARSE)
    cells = {i: Cell(v) for i, v in vals.items() if not (sparse and v == unspec)}
    if kind == 'DM':
        return M(kind, shape, cells, unspec, inner_desc(store, len(groups)), groups)
    return M(kind, shape, cells, unspec)


def to_nested(full, shape):
    def rec(prefix, d):
        if d == len(shape):
            return full[prefix]
        return [rec(prefix + (k,), d + 1) for k in range(shape[d])]
    return rec((), 0)


def nested_get(nested, idx):
    for k in idx:
        nested = nested[k]
    return nested
