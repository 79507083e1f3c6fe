"""Reference model: dense arrays, indexed with Python's own range slicing.

An array is a flat row-major list of cells together with a View, that is, a
shape and the list of cell numbers it shows.  Views over the same cells model
aliasing.
"""
import itertools
import math

from hypothesis import strategies as st

from .core import fail, need


class View:
    def __init__(self, shape, pos):
        self.shape, self.pos = tuple(shape), pos
        assert len(pos) == math.prod(self.shape)

    @classmethod
    def full(cls, shape, first=0):
        return cls(shape, list(range(first, first + math.prod(shape))))

    def flat(self, index):
        k = 0
        for i, n in zip(index, self.shape):
            k = k * n + i
        return k

    def at(self, index):
        return self.pos[self.flat(index)]

    def indices(self):
        return itertools.product(*map(range, self.shape))

    def select(self, items):
        """Index with a tuple of int, slice, None.  Return cell number or View."""
        axes, shape = [], []
        items = tuple(items) + (None,) * (len(self.shape) - len(items))
        for n, item in zip(self.shape, items):
            if isinstance(item, int):
                axes.append([range(n)[item]])
            else:
                r = range(n)[slice(None) if item is None else item]
                axes.append(r)
                shape.append(len(r))
        pos = [self.at(index) for index in itertools.product(*axes)]
        if all(isinstance(item, int) for item in items):
            return pos[0]
        return View(shape, pos)

    def transpose_reduce(self, groups):
        """View of the array with one axis per group of dimensions."""
        shape = [math.prod(self.shape[d] for d in g) for g in groups]
        order = [d for g in groups for d in g]
        pos = []
        for t in itertools.product(*(range(self.shape[d]) for d in order)):
            index = [None] * len(self.shape)
            for d, i in zip(order, t):
                index[d] = i
            pos.append(self.at(index))
        return View(shape, pos)


def nested(shape, items, seq=list):
    """Nested sequences of given shape from flat row-major items."""
    items = list(items)
    if len(shape) == 1:
        return seq(items)
    step = math.prod(shape[1:])
    return seq(nested(shape[1:], items[i * step:(i + 1) * step], seq) for i in range(shape[0]))


def deep_tuple(value):
    if isinstance(value, list):
        return tuple(map(deep_tuple, value))
    return value


# ---------------------------------------------------------------- index items

def resolve_item(item, n):
    """Resolve encoded index item for an axis of length n."""
    if item is None:
        return None
    if item[0] == 'i':
        if n == 0:
            return slice(None)
        return item[1] % (2 * n) - n
    if item[0] == 'r':
        return region(n, *item[1:])
    return slice(*item[1:])


def region(n, a, b, step, form):
    """A slice that selects something unless n is zero.  form tells how its
    ends are written: bit 0/1 - negative start/stop, bit 2 - None when possible.
    """
    if n == 0:
        return slice(None, None, step)
    lo = a % n
    hi = lo + b % (n - lo)    # inclusive
    if step > 0:
        start, stop = lo, hi + 1
        if form & 1:
            start -= n
        if form & 2 and stop < n:
            stop -= n
        if form & 4:
            start, stop = (None if lo == 0 else start), (None if hi == n - 1 else stop)
    else:
        start, stop = hi, lo - 1
        if form & 1:
            start -= n
        if form & 2 or stop < 0:
            stop -= n
        if form & 4:
            start, stop = (None if hi == n - 1 else start), (None if lo == 0 else stop)
    if step == 1 and form & 4:
        step = None
    return slice(start, stop, step)


def resolve_index(code, shape):
    """Resolve encoded index {"i": [items], "bare": bool} for shape.  Return
    (index object to use on the storage, tuple of items).
    """
    items = tuple(resolve_item(item, n) for item, n in zip(code['i'], shape))
    if code.get('bare') and len(items) == 1:
        return items[0], items
    return items, items


def bound(limit):
    return st.one_of(st.none(), st.integers(-limit, limit))


def slice_items(limit=7):
    return st.tuples(
        st.just('s'), bound(limit), bound(limit),
        st.sampled_from([None, 1, -1, 2, -2, 3, -3, 1, -1, 5, -7, 40])).map(list)


region_items = st.tuples(
    st.just('r'), st.sampled_from([0, 0, 1, 2, 0, 3, 7, 0, 1, 2, 0, 3, 61, 1009]),
    st.sampled_from([-1, -1, -2, 1, 2, 5, -1, -1, -1, -2, 1, 2, 97, -1]),
    st.sampled_from([1, -1, 2, -2, 1, -1, 3, -4]), st.integers(0, 7)).map(list)

# wide slices keep more of the array, so that chains do not die out early
wide_items = st.tuples(
    st.just('s'),
    st.sampled_from([None, None, 0, 1, None, -1]),
    st.sampled_from([None, None, None, -1, None, -9]),
    st.sampled_from([None, 1, -1, 2, -1, -2])).map(list)

int_items = st.tuples(st.just('i'), st.integers(0, 23) | st.integers(0, 599)).map(list)

def weighted(*pairs):
    """One of (weight, strategy) pairs.  one_of drops repeated strategies."""
    return st.one_of([strategy.map(lambda v: v) for weight, strategy in pairs
                      for _ in range(weight)])


index_items = weighted(
    (5, region_items), (1, wide_items), (1, st.none()), (1, slice_items()), (1, int_items))

nonint_items = weighted(
    (6, region_items), (1, wide_items), (1, st.none()), (1, slice_items()), (1, int_items))


def some(items, lengths):
    """Lists of items with given lengths, that may repeat."""
    return st.one_of([st.tuples(*[items] * n).map(list) for n in lengths])


def index_codes(items=index_items):
    return st.builds(lambda i, bare: {'i': i, 'bare': bare},
                     some(items, (1, 2, 3, 2, 3, 4, 5, 1, 0)), st.booleans())


def chains(items=index_items, lengths=(1, 2, 3, 2, 4)):
    return some(index_codes(items), lengths)


def resolve_nonelement(code, shape):
    """Same as resolve_index but the result is never an element index."""
    items = [resolve_item(item, n) for item, n in zip(code['i'], shape)]
    if len(items) == len(shape) and all(isinstance(i, int) for i in items):
        items[-1] = slice(None, None, -1)
    items = tuple(items)
    if code.get('bare') and len(items) == 1:
        return items[0], items
    return items, items


# --------------------------------------------------------------------- arrays

POOL = [0, 1, 2, -1, '', 'a', 'x', 1.5, 0.0, True, False, None, 10**20, 2**53 + 1, 1j]
UNSPECIFIED = [None, 0, -1, '', 'x', 1.5, False, 7]


class Array:
    """A concrete array: what is passed to the code, and its model."""

    def __init__(self, spec):
        self.shape = tuple(spec['shape'])
        n = math.prod(self.shape)
        u = spec['u']
        self.has_u = bool(u)
        self.u = u[0] if u else None
        mask = spec['mask']
        raw = []
        for i in range(n):
            if mask >> i & 1:
                hole = spec['hole']
                value = None if not hole or (hole == 2 and i % 2) else self.u
            elif 'vals' in spec:
                value = POOL[spec['vals'][i % len(spec['vals'])]]
            else:
                value = 100 + i
            raw.append(value)
        self.raw = raw
        self.items = [self.u if v is None or v == self.u else v for v in raw]
        self.seq = tuple if spec.get('tuple') else list
        self.view = View.full(self.shape)
        self.nholes = sum(v == self.u for v in self.items)

    def nested(self):
        return nested(self.shape, self.raw, self.seq)

    def kwargs(self):
        return dict(unspecified=self.u) if self.has_u else {}

    def is_hole(self, i):
        return self.items[i] == self.u


@st.composite
def shapes(draw, min_rank=1, max_rank=7, cap=60, zero=True, big=300):
    rank = draw(st.sampled_from([r for r in (2, 3, 1, 2, 3, 4, 1, 5, 2, 3, 1, 4, 2, 3, 5, 2, 3, 1, 4, 6,
                                             2, 3, 2, 1, 3, 4, 3, 7)
                                 if min_rank <= r <= max_rank]))
    shape, size = [], 1
    top = {1: 24, 2: 9, 3: 5, 4: 4, 5: 3, 6: 3, 7: 2}[rank]
    if big > cap and draw(st.integers(0, 47)) == 31:
        # larger than any other array
        cap, top = big, {1: 300, 2: 140, 3: 20, 4: 9, 5: 5, 6: 3, 7: 3}[rank]
        if draw(st.integers(0, 29)) == 17:
            cap, top = 640, {1: 640, 2: 300, 3: 40, 4: 12, 5: 7, 6: 4, 7: 3}[rank]
    for i in range(rank):
        n = draw(st.integers(1, max(1, min(top, cap // size))))
        shape.append(n)
        size *= n
    if zero and draw(st.integers(0, 31)) == 17:
        shape[-1] = 0
    return shape


@st.composite
def arrays(draw, min_rank=1, max_rank=7, cap=60, zero=True, holes=True):
    shape = draw(shapes(min_rank, max_rank, cap, zero))
    n = math.prod(shape)
    spec = {'shape': shape}
    full = (1 << n) - 1
    kind = draw(st.integers(0, 7)) if holes else 0
    if kind <= 1:
        mask = 0
    elif kind <= 5:
        mask = draw(st.integers(0, full))
    elif kind == 6:
        mask = full & ~(1 << draw(st.integers(0, max(n - 1, 0))))  # at most one specified
    else:
        mask = full & ~draw(st.integers(0, full)) & ~draw(st.integers(0, full))
    spec['mask'] = mask
    spec['u'] = draw(st.one_of(
        st.just([]), st.sampled_from(UNSPECIFIED).map(lambda v: [v])))
    spec['hole'] = draw(st.integers(0, 2))
    if draw(st.integers(0, 2)) == 2:
        spec['vals'] = draw(st.lists(st.integers(0, len(POOL) - 1), min_size=1,
                                     max_size=max(n, 1)))
    spec['tuple'] = draw(st.booleans())
    return spec


# ------------------------------------------------------------------- mappings

def nth_permutation(code, n):
    items, result = list(range(n)), []
    for k in range(n, 0, -1):
        code, r = divmod(code, k)
        result.append(items.pop(r))
    return tuple(result)


DM_CODES = st.tuples(weighted((9, st.integers(0, 119)), (1, st.integers(0, 5039))),
                     weighted((18, st.integers(0, 15)), (2, st.integers(0, 63)), (1, st.integers(65, 127))),
                     st.integers(0, 9),
                     st.integers(0, 3)).map(list)


def resolve_mapping(code, rank):
    """Return dict(dimensions, partitioning, groups, cls, kwargs) of a DM
    configuration for arrays with given rank.
    """
    perm = nth_permutation(code[0], rank)
    cuts = tuple(i for i in range(1, rank) if code[1] >> (i - 1) & 1)
    if code[1] >= 64 and cuts and len(cuts) + 2 <= rank:
        # a group without axes
        cuts = tuple(sorted(cuts + (cuts[code[1] // 2 % len(cuts)],)))
    form = code[3]
    kwargs = {}
    if form == 3:
        # defaults
        perm = tuple(range(rank))
        cuts = (rank - 1,) if rank > 1 else ()
    else:
        kwargs['dimensions'] = perm
        kwargs['partitioning'] = cuts[0] if form == 1 and len(cuts) == 1 else cuts
        if form == 2 and perm == tuple(range(rank)):
            del kwargs['dimensions']
    edges = (0,) + cuts + (rank,)
    groups = tuple(perm[a:b] for a, b in zip(edges, edges[1:]))
    m = len(groups)
    names = ['Strided', 'COO', 'FlatCOO', 'DM', 'Strided', 'COO']
    if m == 1:
        names[4:] = ['Buffer', 'Buffer']
    if m == 2:
        names[4:] = ['CSR', 'CSR']
    cls = names[code[2] % len(names)]
    if form == 3 and code[2] >= 8:
        # the defaults for Buffer
        cuts, groups, m, cls = (), (perm,), 1, 'Buffer'
    return dict(dimensions=perm, partitioning=cuts, groups=groups, cls=cls, kwargs=kwargs, m=m)


# ------------------------------------------------------------------ mutation

# what to assign between two rounds of a check
MUTATIONS = some(st.lists(st.integers(0, 400), min_size=1, max_size=3), (0, 1, 0, 2, 0))


def mutate(s, view, cells, u, sparse, codes, what, buffer=False):
    """Assign new values to some elements of s, if sparse to stored ones, and
    to the cells that view shows.  Return extended what.
    """
    place = {p: i for i, p in zip(view.indices(), view.pos)}
    found = [p for p in place if not (sparse and eq(cells[p], u))]
    for k, code in enumerate(codes):
        if not found:
            break
        p = found[code % len(found)]
        index, value = place[p], f'new {code} {k}'
        if code % 5 == 3 and not buffer:
            index = tuple(slice(i, i + 1) for i in index)
            s[index] = nested([1] * len(index), [value])
        elif len(index) == 1 and code & 1:
            index = index[0]
            s[index] = value
        else:
            s[index] = value
        cells[p] = value
        what += f'; [{index!r}] = {value!r};'
    return what


# ----------------------------------------------------------------- comparison

def eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def same(got, expected, u):
    """The same value; unspecified elements only need to be equal."""
    return eq(got, expected) and (type(got) is type(expected) or eq(got, u))


def check_shape(storage, shape, what):
    got = getattr(storage, 'shape', None)
    need(isinstance(got, tuple) and got == tuple(shape),
         f'{what}: shape is {got!r}, expected {tuple(shape)!r}')


def check_content(storage, view, cells, what, negative=False):
    """Storage has the shape and elements of the view of cells."""
    check_shape(storage, view.shape, what)
    u = getattr(storage, 'unspecified', None)
    for index in view.indices():
        expected = cells[view.at(index)]
        got = storage[index]
        if not same(got, expected, u):
            fail(f'{what}: element {index} is {got!r}, expected {expected!r}')
        if negative:
            neg = tuple(i - n for i, n in zip(index, view.shape))
            got = storage[neg]
            if not same(got, expected, u):
                fail(f'{what}: element {neg} is {got!r}, expected {expected!r}')
    if len(view.shape) == 1:
        for i in range(view.shape[0]):
            if not same(storage[i], cells[view.pos[i]], u):
                fail(f'{what}: element {i} is {storage[i]!r}, expected {cells[view.pos[i]]!r}')


def check_buffer(buffer, items, what):
    check_shape(buffer, (len(items),), what)
    u = getattr(buffer, 'unspecified', None)
    for i, expected in enumerate(items):
        if not same(buffer[i], expected, u):
            fail(f'{what}: element {i} is {buffer[i]!r}, expected {expected!r}')
