"""Building storages of every format, and their canonical forms."""
import itertools

from hypothesis import strategies as st

from .core import fail, need
from .model import DM_CODES, View, check_buffer, check_content, eq, resolve_mapping, same
from .target import storage

SPARSE = ('COO', 'FlatCOO', 'CSR')

FORMATS = st.builds(lambda f, dm, via: {'f': f, 'dm': dm, 'via': via},
                    st.integers(0, 59), DM_CODES, st.booleans())


class Format:
    """A storage format to build, resolved for arrays with given rank."""

    def __init__(self, name, via=False, mapping=None):
        self.name, self.via, self.mapping = name, via, mapping

    def __repr__(self):
        if self.name == 'DM':
            m = self.mapping
            return f'DM[{m["dimensions"]}/{m["partitioning"]} {m["cls"]}]'
        return self.name

    def options(self):
        if self.name != 'DM':
            return {}
        options = dict(self.mapping['kwargs'])
        # storage_class defaults to Strided
        if self.mapping['cls'] != 'Strided' or 'dimensions' in options:
            options['storage_class'] = getattr(storage, self.mapping['cls'])
        return options

    def build(self, seq, **kwargs):
        """Build from a nested sequence."""
        return getattr(storage, self.name).fromobject(seq, **self.options(), **kwargs)

    def convert(self, source, **kwargs):
        """Build from storage."""
        if self.via:
            return self.build(source, **kwargs)
        return getattr(source, 'as_' + self.name)(**self.options(), **kwargs)

    @property
    def sparse(self):
        return self.name in SPARSE or self.name == 'DM' and self.mapping['cls'] in SPARSE


def resolve_format(code, rank, names):
    """Choose one of names, CSR only for rank 2.  Names may repeat."""
    names = [n for n in names if n != 'CSR' or rank == 2]
    if rank == 2 and 'CSR' in names:
        names = names + ['CSR']
    name = names[code['f'] % len(names)]
    mapping = resolve_mapping(code['dm'], rank) if name == 'DM' else None
    return Format(name, code['via'], mapping)


PLAIN = ['Strided', 'COO', 'FlatCOO', 'CSR']
ARRAYS = PLAIN + ['DM']
ALL = PLAIN + ['DM', 'Buffer']


def check_storage(s, fmt, view, cells, u, what, negative=False):
    """s is a storage of given format with the content of view."""
    need(isinstance(s, getattr(storage, fmt.name)), f'{what}: got', type(s).__name__)
    if fmt.name == 'Buffer':
        check_buffer(s, [cells[p] for p in view.pos], what)
    else:
        check_content(s, view, cells, what, negative)
    need(eq(s.unspecified, u), f'{what}: unspecified value is {s.unspecified!r}, expected {u!r}')


def values_of(buffer, n, what):
    """The first n items of Buffer, that has n items."""
    need(isinstance(buffer, storage.Buffer), f'{what} is', type(buffer).__name__)
    need(buffer.size == n and len(buffer) == n, f'{what} has {buffer.size} items, expected {n}')
    return [buffer[i] for i in range(n)]


def check_values(got, expected, what, u=None):
    for k, (a, b) in enumerate(zip(got, expected)):
        if not same(a, b, u):
            fail(f'{what}: item {k} is {a!r}, expected {b!r}')


def check_canonical(s, view, cells, u, what):
    """s is the canonical COO, FlatCOO or CSR form of view."""
    spec = [(index, cells[view.at(index)]) for index in view.indices()
            if cells[view.at(index)] != u]
    n, shape = len(spec), view.shape
    name = type(s).__name__
    need(tuple(s.shape) == shape, f'{what}: shape is {s.shape}, expected {shape}')
    need(s.size == n, f'{what}: size is {s.size}, {n} elements are specified')
    check_values(values_of(s.data, n, f'{what}: data'), [v for _, v in spec], f'{what}: data', u)
    if name == 'COO':
        ind = s.indices
        need(isinstance(ind, storage.Strided) and tuple(ind.shape) == (len(shape), n),
             f'{what}: indices are {ind!r}, expected shape {(len(shape), n)}')
        for k, (index, _) in enumerate(spec):
            got = tuple(ind[j, k] for j in range(len(shape)))
            need(got == index, f'{what}: indices[:, {k}] is {got}, expected {index}')
    elif name == 'FlatCOO':
        full = View.full(shape)
        check_values(values_of(s.findices, n, f'{what}: findices'),
                     [full.at(index) for index, _ in spec], f'{what}: findices')
    elif name == 'CSR':
        crow = values_of(s.crow_indices, shape[0] + 1, f'{what}: crow_indices')
        check_values(crow, [sum(i[0] < r for i, _ in spec) for r in range(shape[0] + 1)],
                     f'{what}: crow_indices')
        check_values(values_of(s.col_indices, n, f'{what}: col_indices'),
                     [i[1] for i, _ in spec], f'{what}: col_indices')
    else:
        fail(f'{what}: not a sparse storage, {name}')


def stored_elements(s):
    """elements() as a list."""
    return list(itertools.islice(s.elements(), 100000))
