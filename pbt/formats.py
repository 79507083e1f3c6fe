"""F: storage formats."""
import collections
import copy
import itertools
import math

from hypothesis import strategies as st

from . import model
from .build import (ALL, ARRAYS, FORMATS, PLAIN, SPARSE, check_canonical, check_storage,
                    check_values, resolve_format, stored_elements)
from .core import Property, Sub, fail, need
from .model import (Array, View, arrays, check_buffer, check_content, eq, nested,
                    mutate, resolve_index, resolve_nonelement, same)
from .target import slice_tools, storage  # noqa: F401


def case_of(**strategies):
    return lambda: st.fixed_dictionaries(strategies)


# ------------------------------------------------------------------------- F01

def check_build(case, ctx):
    array = Array(case['array'])
    rank, view = len(array.shape), array.view
    fmt = resolve_format(case['fmt'], rank, PLAIN + ['Buffer'])
    what = f'{fmt} of shape {array.shape}'
    source = array.nested()
    kwargs = array.kwargs()
    if case['src'] is not None:
        src = resolve_format(case['src'], rank, ALL)
        source = src.build(source, **kwargs)
        what = f'{fmt} from {src} of shape {array.shape}'
        if src.name == 'Buffer' and rank > 1:
            view = View.full((len(array.items),))
            if fmt.name == 'CSR':
                fmt.name = 'COO'
        kwargs = {}
        ctx.label('from storage')
    elif case.get('rows') is not None and rank > 1 and 0 not in array.shape:
        row = resolve_format(case['rows'], rank - 1,
                             PLAIN + ['DM'] + (['Buffer'] if rank == 2 else []))
        source = array.seq(row.build(r, **kwargs) for r in source)
        what = f'{fmt} from rows that are {row}, shape {array.shape}'
        ctx.label('from rows that are storages')
    s = fmt.convert(source, **kwargs) if case['src'] is not None else fmt.build(source, **kwargs)
    if fmt.name == 'Buffer':
        view = View.full((len(array.items),))
    check_storage(s, fmt, view, array.items, array.u, what, negative=True)
    if fmt.name != 'Buffer':
        # one index at a time
        for k, index in enumerate(view.indices()):
            if k > 250 and k % 16:
                continue
            part = s
            for i in index:
                part = part[i]
            need(eq(part, array.items[view.at(index)]),
                 f'{what}: element {index}, indexed one axis at a time, is {part!r}, expected '
                 f'{array.items[view.at(index)]!r}')
    ctx.label(fmt.name, f'rank {rank}', 'holes' if array.nholes else 'no holes')
    ctx.nontrivial(array.nholes and len(array.items) > 1 or case['src'] is not None)


def check_mapped(case, ctx):
    """fromobject(seq, shape=..., get_seq_index=...)"""
    array = Array(case['array'])
    view = array.view
    source, kwargs = array.nested(), array.kwargs()
    what = f'shape {array.shape}'
    if case['src'] is not None:
        src = resolve_format(case['src'], len(array.shape), ALL)
        source, kwargs = src.build(source, **kwargs), {}
        what = f'{src} of {what}'
        if src.name == 'Buffer':
            view = View.full((len(array.items),))
        ctx.label('from storage')
    full = View.full(view.shape)
    indices = dict(zip(full.pos, full.indices()))
    options = {}
    if case['chain'] is not None:
        # the array is a view of the sequence: sliced, transposed, repeated
        for code in case['chain']:
            _, sel = resolve_nonelement(code, view.shape)
            view = view.select(sel)
        perm = model.nth_permutation(case['perm'], len(view.shape))
        view = view.transpose_reduce([(d,) for d in perm])
        sizes = view.shape
        shape = tuple(k and case['sizes'][d] for d, k in enumerate(sizes))
        if math.prod(shape) > 100:
            shape = sizes
        view = View(shape, [view.at([i % k for i, k in zip(index, sizes)])
                            for index in itertools.product(*map(range, shape))])
        options['get_seq_index'] = lambda index: indices[view.at(index)]
        ctx.label('map of indices')
    else:
        # a leading part of the sequence
        view = view.select([slice(0, case['sizes'][d]) for d in range(len(view.shape))])
        ctx.label('part')
    fmt = resolve_format(case['fmt'], len(view.shape), ALL)
    what = f'{fmt} of shape {view.shape} and map of indices {view.pos} from {what}'
    s = fmt.build(source, shape=view.shape, **options, **kwargs)
    if fmt.name == 'Buffer':
        view = View((len(view.pos),), view.pos)
    check_storage(s, fmt, view, array.items, array.u, what)
    if fmt.name in SPARSE:
        check_canonical(s, view, array.items, array.u, what)
    ctx.label(fmt.name)
    ctx.nontrivial(len(set(view.pos)) > 1 and view.pos != list(range(len(array.items))))


# ------------------------------------------------------------------------- F02

def check_canonical_chain(case, ctx):
    array = Array(case['array'])
    fmt = resolve_format(case['fmt'], len(array.shape), SPARSE)
    items, u = array.items, array.u
    root = fmt.build(array.nested(), **array.kwargs())
    what = f'{fmt} of shape {array.shape}'
    for codes in [[]] + case.get('mutations', []):
        what = mutate(root, array.view, items, u, True, codes, what)
        steps = canonical_steps(root, array.view, items, u, what, case['steps'], ctx)
    specified = sum(items[p] != u for p in array.view.pos)
    ctx.label(fmt.name, 'some specified' if specified else 'none specified',
              f'{len(case.get("mutations", []))} mutations')
    ctx.nontrivial(specified and array.nholes and steps)


def canonical_steps(s, view, items, u, what, codes, ctx):
    check_canonical(s, view, items, u, what)
    steps = 0
    for step in codes:
        if 'i' in step:
            index, sel = resolve_nonelement(step, view.shape)
            what += f' [{index!r}]'
            s, view = s[index], view.select(sel)
            ctx.label('slice')
        else:
            rank = len(view.shape)
            fmt = resolve_format(step, rank, SPARSE)
            what += f' -> {fmt}'
            s = fmt.convert(s)
            need(type(s).__name__ == fmt.name, f'{what}: got', type(s).__name__)
            ctx.label('convert')
        check_canonical(s, view, items, u, what)
        steps += 1
    return steps


def enum_canonical(tier):
    """All sparsity patterns of small shapes."""
    shapes = [(1,), (2,), (3,), (4,), (1, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2)]
    if tier != 'quick':
        shapes += [(8,), (3, 3), (2, 4), (4, 2), (2, 2, 2), (1, 2, 3), (2, 5), (5, 2)]
    for shape in shapes:
        for mask in range(1 << math.prod(shape)):
            for f in range(3 if len(shape) == 2 else 2):
                yield {'array': {'shape': list(shape), 'mask': mask, 'u': [], 'hole': 0},
                       'fmt': {'f': f, 'dm': [0, 0, 0, 0], 'via': False},
                       'steps': [{'i': [['s', None, None, -1]], 'bare': True},
                                 {'f': f + 1, 'dm': [0, 0, 0, 0], 'via': False}]}


# ------------------------------------------------------------------------- F03

def check_conversions(case, ctx):
    array = Array(case['array'])
    rank, view, items, u = len(array.shape), array.view, array.items, array.u
    last = resolve_format(case['last'], rank, ALL)
    lossless = array.nholes and any(items[p] != u for p in view.pos)
    # the first format of each chain is built from the array
    chains = []
    for chain in case['chains']:
        fmts = [resolve_format(code, rank, ALL if rank == 1 else ARRAYS) for code in chain]
        fmts.append(last)
        chains.append((fmts, fmts[0].build(array.nested(), **array.kwargs())))
    what0 = f'array of shape {array.shape} u={u!r}'
    for k, codes in enumerate([[]] + case.get('mutations', [])):
        if k and 0 not in array.shape:
            before, what1 = items, what0
            for fmts, s in chains:
                items = list(before)
                fmt = fmts[0]
                buffer = fmt.name == 'Buffer'
                what0 = mutate(s, View.full((len(items),)) if buffer else view, items, u, True,
                               [5 * c for c in codes], what1, buffer)
            ctx.label('mutated')
        direct = last.build(nested(array.shape, items), **array.kwargs())
        results = [('direct', direct)]
        for fmts, s in chains:
            what = what0
            for k, fmt in enumerate(fmts):
                what += f' -> {fmt}'
                if k:
                    s = fmt.convert(s)
                tview = view if fmt.name != 'Buffer' else View.full((len(items),))
                check_storage(s, fmt, tview, items, u, what)
                ctx.label(fmt.name)
            results.append((what, s))
        for (what1, s1), (what2, s2) in itertools.combinations(results, 2):
            for a, b in ((s1, s2), (s2, s1)):
                need(a == b and not a != b,
                     f'{what0}: {what1} and {what2} are not equal: {a!r} {b!r}')
    ctx.nontrivial(lossless and any(len(c) > 0 for c in case['chains']))


# ------------------------------------------------------------------------- F04

def check_unspecified(case, ctx):
    array = Array(case['array'])
    rank, items, u, view = len(array.shape), array.items, array.u, array.view
    src = resolve_format(case['src'], rank, ALL)
    s = src.build(array.nested(), **array.kwargs())
    what = f'{src} of shape {array.shape} u={u!r}'
    if src.name != 'Buffer':
        for code in case['chain']:
            index, sel = resolve_nonelement(code, view.shape)
            s, view = s[index], view.select(sel)
            what += f' [{index!r}]'
            ctx.label('slice')
    elif case.get('window') and len(items) > 1:
        a, n = case['window']
        a %= len(items)
        n = n % (len(items) - a) + 1
        s = s[a:a + n]
        what += f' [{a}:{a + n}]'
        items, view = items[a:a + n], View.full((n,))
        ctx.label('window')
    rank = len(view.shape)
    u2 = case['u2']
    for op in case['ops']:
        u2 = op['u']
        if op.get('mutate'):
            buffer = src.name == 'Buffer'
            what = mutate(s, View.full((len(items),)) if buffer else view, items, u, src.sparse,
                          op['mutate'], what, buffer)
            ctx.label('mutated')
        expected = [u2 if v == u else v for v in items]
        if op['copy']:
            what2 = what + f' copy(unspecified={u2!r})'
            t = s.copy(unspecified=u2)
            tfmt = None
            ctx.label('copy')
        else:
            allowed = ALL
            if src.name == 'Buffer':
                rank = 1
                view = View.full((len(items),))
            tfmt = resolve_format(op['fmt'], rank, allowed)
            what2 = what + f' as {tfmt}(unspecified={u2!r})'
            t = tfmt.convert(s, unspecified=u2)
            ctx.label('convert to ' + tfmt.name)
        need(eq(t.unspecified, u2), f'{what2}: unspecified value is {t.unspecified!r}')
        if tfmt is None and src.name == 'Buffer' or tfmt and tfmt.name == 'Buffer':
            check_buffer(t, [expected[p] for p in view.pos], what2)
        else:
            check_content(t, view, expected, what2)
        if tfmt and tfmt.name in SPARSE:
            check_canonical(t, view, expected, u2, what2)
        # the source is as before
        need(eq(s.unspecified, u), f'{what2}: unspecified value of the source changed')
        if src.name == 'Buffer':
            check_buffer(s, [items[p] for p in range(len(items))], what2 + ': source')
        else:
            check_content(s, view, items, what2 + ': source')
        ctx.nontrivial(any(items[p] == u for p in view.pos) and u2 != u)


OPS_F04 = st.fixed_dictionaries({
    'copy': st.booleans(), 'u': st.sampled_from(model.UNSPECIFIED + [100, 101]),
    'fmt': FORMATS,
    'mutate': st.none() | st.lists(st.integers(0, 400), min_size=1, max_size=2)})


# ------------------------------------------------------------------------- F05

def check_slicing(names):
    """F05 and D03"""
    def check(case, ctx):
        array = Array(case['array'])
        rank, items = len(array.shape), array.items
        fmt = resolve_format(case['fmt'], rank, names)
        root = fmt.build(array.nested(), **array.kwargs())
        what = f'{fmt} of shape {array.shape} mask={case["array"]["mask"]:b}'
        ctx.label(fmt.name if fmt.name != 'DM' else f'DM {fmt.mapping["cls"]}')
        for codes in [[]] + case.get('mutations', []):
            what = mutate(root, array.view, items, array.u, fmt.sparse, codes, what)
            if codes:
                ctx.label('mutated')
            slicing(root, array, what, case, ctx)

    def slicing(s, array, what, case, ctx):
        items, u, view = array.items, array.u, array.view
        depth = 0
        for code in case['chain']:
            index, sel = resolve_index(code, view.shape)
            what += f' [{index!r}]'
            s, view = s[index], view.select(sel)
            if not isinstance(view, View):
                need(same(s, items[view], u), f'{what}: got {s!r}, expected {items[view]!r}')
                ctx.label('element')
                ctx.nontrivial(depth)
                return
            depth += 1
            need(isinstance(s, storage.Storage), f'{what}: got', type(s).__name__)
            check_content(s, view, items, what, negative=depth == 1)
            need(eq(s.unspecified, u), f'{what}: unspecified value is {s.unspecified!r}')
            need(len(s) == view.shape[0], f'{what}: len is {len(s)}')
            ctx.label('empty' if 0 in view.shape else f'depth {depth}')
        if case['to'] is not None:
            to = resolve_format(case['to'], len(view.shape), ALL)
            t = to.convert(s)
            what += f' -> {to}'
            ctx.label('converted')
            if to.name == 'Buffer':
                need(isinstance(t, storage.Buffer), f'{what}: got', type(t).__name__)
                check_buffer(t, [items[p] for p in view.pos], what)
            else:
                need(isinstance(t, getattr(storage, to.name)), f'{what}: got', type(t).__name__)
                check_content(t, view, items, what)
            need(eq(t.unspecified, u), f'{what}: unspecified value is {t.unspecified!r}')
        ctx.nontrivial(depth and len(view.pos) > 1 and view.pos != array.view.pos)
    return check


# ------------------------------------------------------------- F06, F07 (D04, D05)

KNOWN_DROP = 'unstored-assignment'


class Entry:
    """A storage of a history, the view it shows, and the positions that are
    certainly stored (None - all).
    """
    def __init__(self, storage, fmt, view, stored, u, what, groups=None):
        self.storage, self.fmt, self.view, self.stored = storage, fmt, view, stored
        self.u, self.what, self.groups = u, what, groups

    @property
    def sparse(self):
        return self.stored is not None


class World:
    """A history of storages over cells."""

    def __init__(self, array, fmt, ctx, drops=False):
        self.drops = drops  # whether dropped assignments break the property
        self.cells = list(array.items)
        self.ctx = ctx
        self.counter = 1000
        self.entries = []
        self.source = array.nested()
        self.source_items = array.nested()
        s = fmt.build(self.source, **array.kwargs())
        stored = None
        if fmt.sparse:
            stored = set(p for p in array.view.pos if array.items[p] != array.u)
        groups = fmt.mapping['groups'] if fmt.name == 'DM' else None
        view = array.view if fmt.name != 'Buffer' else View.full((len(array.items),))
        self.add(Entry(s, fmt.name, view, stored, array.u, f'{fmt} {array.shape}', groups))

    @classmethod
    def of(cls, s, view, cells, ctx, fmt, stored, u, what, groups=None):
        """A history that begins with storage s."""
        self = cls.__new__(cls)
        self.drops, self.source, self.source_items = False, None, None
        self.cells, self.ctx, self.counter = list(cells), ctx, 1000
        self.entries = [Entry(s, fmt, view, stored, u, what, groups)]
        return self

    def add(self, entry):
        self.entries.append(entry)
        if len(self.entries) > 7:
            del self.entries[1 + self.counter % 5]
        return entry

    def fresh(self, entry, fmt, s, view, what, groups=None, stored=None):
        """Entry with copies of the cells of view."""
        first = len(self.cells)
        self.cells.extend(self.cells[p] for p in view.pos)
        new = View.full(view.shape, first)
        kept = None
        if stored is not None:
            kept = set(q for p, q in zip(view.pos, new.pos) if p in stored)
        return Entry(s, fmt, new, kept, entry.u, what, groups)

    def new_values(self, n, code):
        """Values to assign: mostly unique."""
        result = []
        for i in range(n):
            self.counter += 1
            result.append(self.counter)
        for i in code:
            if n:
                result[i % n] = None if i & 1 else model.POOL[i % len(model.POOL)]
        return result

    def check(self, entry, what):
        if entry.fmt == 'Buffer':
            check_buffer(entry.storage, [self.cells[p] for p in entry.view.pos], what)
        else:
            check_content(entry.storage, entry.view, self.cells, what)
            # as listed
            u, place = entry.u, {i: p for i, p in zip(entry.view.indices(), entry.view.pos)}
            listed = stored_elements(entry.storage)
            for index, value in listed:
                need(index in place, f'{what}: elements list {index}')
                need(same(value, self.cells[place[index]], u), f'{what}: elements give {value!r}'
                     f' at {index}, expected {self.cells[place[index]]!r}')
            listed = set(index for index, _ in listed)
            for index, p in place.items():
                need(index in listed or eq(self.cells[p], u),
                     f'{what}: elements omit {index}, that is {self.cells[p]!r}')

    def check_all(self, what):
        for e in self.entries:
            self.check(e, f'{what}: {e.what}')
        need(self.source == self.source_items, f'{what}: the nested sequence that the storage was'
             f' built from is changed to {self.source}, from {self.source_items}')

    def change_source(self):
        """Change the nested sequence that the storage was built from."""
        def change(seq):
            for i, value in enumerate(seq):
                if isinstance(value, (list, tuple)):
                    change(value)
                elif isinstance(seq, list):
                    seq[i] = 'changed'
            if isinstance(seq, list):
                seq.append('more')

        change(self.source)
        self.source_items = copy.deepcopy(self.source)
        self.check_all('after changing the nested sequence')

    def assign(self, entry, index, sel, rhs, expected, what):
        """entry.storage[index] = rhs where expected is the list of values of
        selected elements.
        """
        entry.storage[index]
        entry.storage[index] = rhs
        self.apply(entry, sel, expected, what)
        # as indexed again
        target = entry.view.select(sel)
        if isinstance(target, View):
            check_content(entry.storage[index], target, self.cells, f'{what}: [{index!r}] again')

    def apply(self, entry, sel, expected, what):
        target = entry.view.select(sel)
        pos = target.pos if isinstance(target, View) else [target]
        for p, value in zip(pos, expected):
            if entry.sparse and p not in entry.stored and not eq(value, self.cells[p]):
                # Not stored.  Has the element been stored?
                k = entry.view.pos.index(p)
                index = next(itertools.islice(entry.view.indices(), k, None))
                got = entry.storage[index]
                if eq(got, value):
                    self.cells[p] = value
                    entry.stored.add(p)
                else:
                    need(eq(got, self.cells[p]), f'{what}: element {index} is {got!r}, '
                         f'expected {value!r} (before: {self.cells[p]!r})')
                    self.ctx.label('dropped')
                    if self.drops:
                        self.ctx.known(KNOWN_DROP, f'{what}: element {index} is still '
                                       f'{got!r}, expected {value!r}')
            else:
                self.cells[p] = value


def assignment(world, entry, op, what):
    """Perform assignment op on entry and update the model."""
    ctx, cells = world.ctx, world.cells
    index, sel = resolve_index(op['index'], entry.view.shape)
    target = entry.view.select(sel)
    what = f'{what} {entry.what}[{index!r}]'
    if not isinstance(target, View):
        value = world.new_values(1, op['vals'][:1])[0]
        ctx.label('element')
        what += f' = {value!r}'
        world.assign(entry, index, sel, value, [value], what)
        return what
    kind = op['rhs']
    shape = target.shape
    n = len(target.pos)
    ctx.label(kind, 'empty selection' if not n else 'selection')
    if kind == 'self':
        # a view of the same storage with the same shape: reversed, or shifted
        code = dict(op['index'], i=[flip(item, m, op['vals'], k) for k, (item, m) in enumerate(
            zip(sel, entry.view.shape))])
        index2 = tuple(code['i'])
        src = entry.view.select(index2)
        if src.shape == shape:
            expected = [cells[p] for p in src.pos]
            rhs = entry.storage[index2]
            what += f' = same[{index2!r}]'
            world.assign(entry, index, sel, rhs, expected, what)
            return what
        kind = 'list'
    if kind in ('root', 'twin'):
        # a part of the first storage, or of a copy of it
        root = world.entries[0]
        index2 = fit(root.view.shape, shape, op['vals'])
        # slices of buffers are windows, see F11
        if index2 is not None and root.fmt != 'Buffer':
            expected = [cells[p] for p in root.view.select(index2).pos]
            src = root.storage if kind == 'root' else root.storage.copy()
            what += f' = {kind}[{index2!r}]'
            world.assign(entry, index, sel, src[index2], expected, what)
            return what
        kind = 'list'
    values = world.new_values(n, op['vals'])
    if kind == 'small' and n and 0 not in shape:
        axis = op['vals'][0] % len(shape) if op['vals'] else 0
        small = list(shape)
        small[axis] -= 1
        if math.prod(small):
            rhs = nested(small, world.new_values(math.prod(small), []))
        else:
            rhs = []
            if axis:
                rhs = nested(shape[:axis], [[] for _ in range(math.prod(shape[:axis]))])
        what += f' = {rhs!r}'
        needed = [p for i, p in zip(target.indices(), target.pos) if i[axis] >= small[axis]]
        must_fail = not entry.sparse or any(p in entry.stored for p in needed)
        try:
            entry.storage[index] = rhs
        except Exception:
            ctx.label('rejected')
        else:
            need(not must_fail, f'{what}: the right-hand side is too small, but is accepted')
            sure = {}
            for i, p in zip(target.indices(), target.pos):
                if i[axis] < small[axis]:
                    value = rhs
                    for k in i:
                        value = value[k]
                    sure[p] = value
            view = View(shape, target.pos)
            world.apply(entry, sel, [sure.get(p, cells[p]) for p in view.pos], what)
        return what
    if 0 in shape[:-1]:
        return None  # no nested sequence has this shape
    if kind == 'Strided':
        rhs = storage.Strided.fromobject(nested(shape, values))
    elif kind == 'COO':
        rhs = storage.COO.fromobject(nested(shape, values))
    else:
        rhs = nested(shape, values, tuple if kind == 'tuple' else list)
    what += f' = {kind} {values!r}'
    world.assign(entry, index, sel, rhs, values, what)
    return what


def flip(item, n, vals, k):
    """Another index item that selects as many positions as item."""
    how = (vals[k % len(vals)] if vals else 0) + k
    if isinstance(item, int):
        return (item + how) % n - (n if how & 1 else 0)
    r = range(n)[slice(None) if item is None else item]
    if not r:
        return item if item is not None else slice(None)
    lo, hi = min(r[0], r[-1]), max(r[0], r[-1])
    if how % 3 == 0:
        # reversed
        return slice(r[-1], r[0] - r.step if r[0] - r.step >= 0 else None, -r.step)
    if how % 3 == 1:
        shift = n - 1 - hi     # as far up as possible
    else:
        shift = -min(lo, 1)    # one down
    start, stop = r[0] + shift, r[-1] + shift + (1 if r.step > 0 else -1)
    return slice(start, stop if stop >= 0 else None, r.step)


def fit(shape, small, vals):
    """Index of an array that selects a part of shape small, or None."""
    how = sum(v * 5 ** i for i, v in enumerate(vals))
    found = [axes for axes in itertools.combinations(range(len(shape)), len(small))
             if all(shape[a] >= m for a, m in zip(axes, small))]
    if not found or 0 in shape:
        return None
    axes = found[how % len(found)]
    index = [None] * len(shape)
    for k, n in enumerate(shape):
        how, how_k = how // 3 + 7 * k, how
        if k not in axes:
            index[k] = how_k % n
            continue
        m = small[axes.index(k)]
        start = how_k % (n - m + 1)
        if how_k % 4 == 3:
            index[k] = slice(start + m - 1, start - 1 if start else None, -1)
            if not m:
                index[k] = slice(start, start, -1)
        else:
            index[k] = slice(start, start + m)
    return tuple(index)


INDEX = model.index_codes()
ASSIGN = st.fixed_dictionaries({
    'op': st.just('assign'), 'on': st.integers(0, 20), 'index': INDEX,
    'rhs': st.sampled_from(['list', 'self', 'Strided', 'tuple', 'self', 'COO', 'small', 'root',
                            'twin', 'twin']),
    'vals': st.lists(st.integers(0, 30), max_size=3)})
SLICE = st.fixed_dictionaries({
    'op': st.just('slice'), 'on': st.integers(0, 20),
    'index': model.index_codes(model.nonint_items)})
COPY = st.fixed_dictionaries({'op': st.just('copy'), 'on': st.integers(0, 20)})
AGAIN = st.fixed_dictionaries({'op': st.just('again'), 'on': st.integers(0, 20)})
CONVERT = st.fixed_dictionaries({
    'op': st.just('convert'), 'on': st.integers(0, 20), 'fmt': FORMATS})


def check_assignments(names, slices=False):
    """F06, D04: assignments to one storage (D04: and to slices of it)."""
    def check(case, ctx):
        array = Array(case['array'])
        fmt = resolve_format(case['fmt'], len(array.shape), names)
        world = World(array, fmt, ctx, drops=True)
        root = world.entries[0]
        done = []
        for op in case['ops']:
            target = root
            if slices:
                for code in op['chain']:
                    sliced = slice_entry(world, target, code)
                    if sliced is None or sliced.view.pos and sliced.view.pos[0] >= len(array.items):
                        break
                    target = sliced
                    ctx.label('slice')
            what = assignment(world, target, op, '; '.join(done))
            if what is None:
                continue
            done = [what]
            if target is not root:
                world.check(target, what)
                if not target.aliases:
                    continue
            world.check_all(what)
            if target.view.pos and len(array.items) > 1:
                ctx.nontrivial()
        ctx.label(fmt.name if fmt.name != 'DM' else f'DM {fmt.mapping["cls"]}')
    return check


def slice_entry(world, entry, code):
    """Slice entry.  Return None if it is unknown whether the result shares
    elements with entry.
    """
    index, sel = resolve_nonelement(code, entry.view.shape)
    s = entry.storage[index]
    view = entry.view.select(sel)
    what = f'{entry.what}[{index!r}]'
    if entry.fmt == 'Strided' or entry.fmt == 'DM' and not entry.sparse:
        groups = kept_groups(entry.groups, sel)
        e = Entry(s, entry.fmt, view, None, entry.u, what, groups)
        e.aliases = True
        return e
    if entry.fmt == 'DM':
        groups = kept_groups(entry.groups, sel)
        if len(groups) == len(entry.groups):
            # as many dimensions of storage as before
            e = Entry(s, 'DM', view, entry.stored, entry.u, what, groups)
            e.aliases = True
            return e
        check_content(s, view, world.cells, what)
        return None
    # A slice of CSR may be COO.  Stored elements may be left out if they are
    # equal to the unspecified value.
    stored = set(p for p in entry.stored if not eq(world.cells[p], entry.u))
    e = world.fresh(entry, type(s).__name__, s, view, what, stored=stored)
    e.aliases = False
    return e


def kept_groups(groups, sel):
    """The groups of dimensions that are left when indexing with sel."""
    if groups is None:
        return None
    new, removed = {}, 0
    rank = sum(map(len, groups))
    for d in range(rank):
        if d < len(sel) and isinstance(sel[d], int):
            removed += 1
        else:
            new[d] = d - removed
    result = [tuple(new[d] for d in g if d in new) for g in groups]
    return [g for g in result if g]


def check_sharing(names, convert_to):
    """F07, D05: views share, copies do not."""
    def check(case, ctx):
        array = Array(case['array'])
        fmt = resolve_format(case['fmt'], len(array.shape), names)
        sharing(World(array, fmt, ctx), case['ops'], ctx, convert_to)
    return check


def sharing(world, ops, ctx, convert_to):
    assigned = views = copies = 0
    made = []
    for op in ops:
        entry = world.entries[op['on'] % len(world.entries)]
        if op['op'] == 'again':
            # the same operation on the same storage
            if not made:
                continue
            entry, op = made[op['on'] % len(made)]
            ctx.label('again')
        elif op['op'] != 'assign':
            made.append((entry, op))
        if op['op'] == 'assign':
            if entry.fmt == 'Buffer':
                if entry.view.pos:
                    i = op['vals'][0] % len(entry.view.pos) if op['vals'] else 0
                    value = world.new_values(1, [])[0]
                    what = f'{entry.what}[{i}] = {value}'
                    entry.storage[i] = value
                    world.cells[entry.view.pos[i]] = value
                else:
                    continue
            else:
                what = assignment(world, entry, op, '')
            if what is None:
                continue
            world.check_all(f'after {what}')
            assigned += bool(len(world.entries) > 1)
            continue
        if op['op'] == 'slice' and entry.fmt != 'Buffer':
            e = slice_entry(world, entry, op['index'])
            if e is None:
                continue
            ctx.label('view' if e.aliases else 'sparse slice')
            views += 1
        elif op['op'] == 'convert':
            to = resolve_format(op['fmt'], len(entry.view.shape), convert_to)
            if to.name == entry.fmt and not (to.name == 'DM'):
                continue
            s = to.convert(entry.storage)
            stored = None
            if to.sparse:
                stored = set(p for p in entry.view.pos if not eq(world.cells[p], entry.u)
                             and (entry.stored is None or p in entry.stored))
            view = entry.view
            if to.name == 'Buffer':
                view = View((len(view.pos),), view.pos)
            groups = to.mapping['groups'] if to.name == 'DM' else None
            e = world.fresh(entry, to.name, s, view, f'{entry.what} -> {to}', groups,
                            stored=stored)
            ctx.label(f'convert {entry.fmt} to {to.name}')
            copies += 1
        else:
            s = entry.storage.copy()
            groups = entry.groups
            e = world.fresh(entry, entry.fmt, s, entry.view, f'{entry.what} copy', groups,
                            stored=entry.stored)
            ctx.label('copy ' + entry.fmt)
            copies += 1
        world.check(e, e.what)
        world.add(e)
    if world.source is not None:
        world.change_source()
    ctx.nontrivial(assigned and (views or copies))


# ------------------------------------------------------------------------- F08

def check_elements(case, ctx):
    array = Array(case['array'])
    fmt = resolve_format(case['fmt'], len(array.shape), ALL)
    root = fmt.build(array.nested(), **array.kwargs())
    what = f'{fmt} of shape {array.shape} u={array.u!r}'
    buffer = fmt.name == 'Buffer'
    for codes in [[]] + case.get('mutations', []):
        what = mutate(root, View.full((len(array.items),)) if buffer else array.view,
                      array.items, array.u, fmt.sparse, codes, what, buffer)
        elements_chain(root, fmt, array, what, case, ctx)


def elements_chain(s, fmt, array, what, case, ctx):
    items, u, view = array.items, array.u, array.view
    if fmt.name == 'Buffer':
        elements = stored_elements(s)
        need([i for i, _ in elements] == list(range(len(items))),
             f'{what}: elements are {elements}')
        check_values([v for _, v in elements], items, what, u)
        need(s.size == len(items) and len(s) == len(items), f'{what}: size is {s.size}')
        need(s.is_full() is True, f'{what}: is_full is {s.is_full()!r}')
        ctx.nontrivial(len(items) > 1)
        return
    for k in range(len(case['chain']) + 1):
        if k:
            index, sel = resolve_nonelement(case['chain'][k - 1], view.shape)
            s, view = s[index], view.select(sel)
            what += f' [{index!r}]'
        elements = stored_elements(s)
        indices = [i for i, _ in elements]
        need(all(isinstance(i, tuple) for i in indices), f'{what}: indices are {indices}')
        need(indices == sorted(set(indices)),
             f'{what}: elements are not in row-major order, once each: {indices}')
        listed = dict(elements)
        for index in view.indices():
            expected = items[view.at(index)]
            if index in listed:
                value = listed.pop(index)
                need(eq(value, expected),
                     f'{what}: elements give {value!r} at {index}, expected {expected!r}')
                need(eq(s[index], value), f'{what}: [{index}] is {s[index]!r}, elements give '
                     f'{value!r}')
                if fmt.name in SPARSE:
                    need(expected != u, f'{what}: unspecified element {index} is stored')
            else:
                need(expected == u, f'{what}: elements omit {index}, that is {expected!r}')
                need(fmt.name != 'Strided', f'{what}: elements omit {index}')
        need(not listed, f'{what}: elements list indices out of range: {listed}')
        count = len(view.pos)
        if fmt.sparse:
            count = sum(items[p] != u for p in view.pos)
        need(s.size == count, f'{what}: size is {s.size}, {count} elements are stored')
        need(len(s) == view.shape[0], f'{what}: len is {len(s)}')
        full = s.is_full()
        need(bool(full) == (count == len(view.pos)),
             f'{what}: is_full is {full!r}, {count} of {len(view.pos)} elements are stored')
        ctx.nontrivial(count > 1 and (k or array.nholes))
        ctx.label('full' if full else 'not full')
    ctx.label(fmt.name if fmt.name != 'DM' else f'DM {fmt.mapping["cls"]}')


# ------------------------------------------------------------------------- F09

BAD_ITEMS = [1.5, 'a', 'ab', '0', {'list': [0]}, {'dict': 1}, 'ellipsis', {'set': 1}, 0.0, 1e300]


def bad_item(code):
    if code == 'ellipsis':
        return Ellipsis
    if isinstance(code, dict):
        if 'list' in code:
            return list(code['list'])
        if 'set' in code:
            return frozenset([0])
        return {'start': 0}
    return code


def check_invalid(case, ctx):
    array = Array(case['array'])
    rank, items, view = len(array.shape), array.items, array.view
    fmt = resolve_format(case['fmt'], rank, ARRAYS)
    s = fmt.build(array.nested(), **array.kwargs())
    what = f'{fmt} of shape {array.shape}'
    for code in case['chain']:
        index, sel = resolve_nonelement(code, view.shape)
        s, view = s[index], view.select(sel)
        what += f' [{index!r}]'
        ctx.label('slice')
    rank = len(view.shape)
    for bad in case['bad']:
        valid = [model.resolve_item(item, n) for item, n in zip(bad['index'], view.shape)]
        kind, at, k = bad['kind'], bad['at'], bad['k']
        error = IndexError
        if kind == 'many':
            valid += [None] * (rank - len(valid))
            extra = [[0], [slice(None)], [None], [0, 0]][k % 4]
            index = tuple(valid + extra)
        else:
            at %= rank
            valid += [None] * (at + 1 - len(valid))
            n = view.shape[at]
            if kind == 'range':
                valid[at] = [n, -n - 1, n + 1, -n - 2, 2 * n + 1, -2 * n - 1, n + k, -n - 1 - k,
                             10**20][k % 9]
            else:
                valid[at] = bad_item(BAD_ITEMS[k % len(BAD_ITEMS)])
                error = Exception
            if bad['allint']:
                for i, v in enumerate(valid):
                    if i != at and view.shape[i]:
                        valid[i] = (0 if not isinstance(v, int) else v)
                valid += [0 if n else None for n in view.shape[len(valid):]]
            index = tuple(valid)
            if at == 0 and bad['bare']:
                index = index[0]
                if not isinstance(index, (int, float, slice)) and index is not Ellipsis:
                    index = (index,)
        what2 = f'{what} [{index!r}]'
        for op in 'get', 'set':
            try:
                if op == 'get':
                    r = s[index]
                else:
                    # big enough for any selection
                    r = s[index] = storage.Strided.fromobject(nested(
                        (9,) * min(rank, 2), range(9 ** min(rank, 2)))) if k & 1 else 77
            except error:
                pass
            else:
                fail(f'{what2}: {op} of an invalid index gives {r!r}')
            check_content(s, view, items, f'{what2}: after {op}')
        ctx.label(kind)
        ctx.nontrivial()
    # iteration
    rows = list(itertools.islice(iter(s), view.shape[0] + 2))
    need(len(rows) == view.shape[0],
         f'{what}: iteration yields {len(rows)} rows or more, expected {view.shape[0]}')
    for i, row in enumerate(rows):
        expected = view.select((i,))
        if isinstance(expected, View):
            check_content(row, expected, items, f'{what}: row {i} of the iteration')
        else:
            need(eq(row, items[expected]), f'{what}: item {i} of the iteration is {row!r}')
    ctx.label(fmt.name)


BAD = st.fixed_dictionaries({
    'kind': st.sampled_from(['range', 'range', 'many', 'type']),
    'at': st.integers(0, 4), 'k': st.integers(0, 40), 'allint': st.booleans(),
    'bare': st.booleans(), 'index': st.lists(model.index_items, max_size=4)})


# ------------------------------------------------------------------------- F10

def perturb(spec, how):
    """Another array spec that differs from spec, maybe not in value."""
    spec = copy.deepcopy(spec)
    kind, k = how
    n = math.prod(spec['shape'])
    if kind == 'value' and n:
        array = Array(spec)
        if 'vals' in spec:
            vals = [spec['vals'][i % len(spec['vals'])] for i in range(n)]
            vals[k % n] = k % len(model.POOL)
            spec['vals'] = vals
        else:
            spec['set'] = [k % n, 5000 + k]
        del array
    elif kind == 'swap' and n > 1:
        spec['swap'] = [k % n, (k * 7 + 1) % n]
    elif kind == 'mask' and n:
        spec['mask'] ^= 1 << k % n
    elif kind == 'shape':
        shape = spec['shape']
        options = [s for s in ([n], [1, n], [n, 1], shape + [1], [1] + shape, shape[::-1],
                               [2, n // 2], [n // 2, 2])
                   if math.prod(s) == n and 0 not in s]
        if options:
            spec['shape'] = options[k % len(options)]
    elif kind == 'u':
        spec['u'] = [model.UNSPECIFIED[k % len(model.UNSPECIFIED)]]
    elif kind == 'hole':
        spec['hole'] = k % 3
        spec['tuple'] = bool(k & 1)
    return spec


def make(spec):
    array = Array(spec)
    if 'set' in spec:
        i, v = spec['set']
        array.raw[i] = array.items[i] = v
    if 'swap' in spec:
        i, j = spec['swap']
        for x in (array.raw, array.items):
            x[i], x[j] = x[j], x[i]
    return array


PERTURB = st.tuples(
    st.sampled_from(['none', 'value', 'swap', 'mask', 'shape', 'u', 'hole', 'value']),
    st.integers(0, 400)).map(list)


def check_equality(case, ctx):
    a1 = make(case['array'])
    a2 = make(perturb(case['array'], case['how']))
    rank = len(a1.shape)
    fmt = resolve_format(case['fmt'], rank, ALL)
    if len(a2.shape) != rank and fmt.name in ('CSR', 'DM'):
        a2 = make(case['array'])
    s1 = fmt.build(a1.nested(), **a1.kwargs())
    s2 = fmt.build(a2.nested(), **a2.kwargs())
    what = f'{fmt} of {a1.nested()} u={a1.u!r} and {a2.nested()} u={a2.u!r}'
    buffer = fmt.name == 'Buffer'
    for codes in [[]] + case.get('mutations', []):
        # every third time, only one is changed
        for n, (name, a, s) in enumerate([('first', a1, s1), ('second', a2, s2)]):
            if not n or sum(codes) % 3:
                what = mutate(s, View.full((len(a.items),)) if buffer else a.view, a.items, a.u,
                              fmt.sparse, codes, f'{what}; {name}', buffer)
        compare(a1, a2, s1, s2, fmt, what, case, ctx)
        if codes:
            ctx.label('mutated')


def compare(a1, a2, s1, s2, fmt, what, case, ctx):
    v1, v2 = a1.view, a2.view
    if fmt.name == 'Buffer':
        v1, v2 = View.full((len(a1.items),)), View.full((len(a2.items),))
    elif a1.shape == a2.shape:
        for code in case['chain']:
            index, sel = resolve_nonelement(code, v1.shape)
            s1, v1 = s1[index], v1.select(sel)
            s2, v2 = s2[index], v2.select(sel)
            what += f' [{index!r}]'
            ctx.label('slice')
    sliced = v1.pos != a1.view.pos or v1.shape != a1.shape
    same = (v1.shape == v2.shape and a1.u == a2.u
            and [a1.items[p] for p in v1.pos] == [a2.items[p] for p in v2.pos])
    for a, b in ((s1, s2), (s2, s1)):
        e, d = (a == b), (a != b)
        need(e is True or e is False, f'{what}: == gives {e!r}')
        need(d is (not e), f'{what}: == gives {e!r} and != gives {d!r}')
        if fmt.name == 'DM' and sliced:
            # slices share all data with the original arrays
            need(same or not e, f'{what}: == gives {e!r} for different arrays')
        else:
            need(e is same, f'{what}: == gives {e!r}, expected {same!r}')
    need((s1 == s1) is True and (s1 != s1) is False, f'{what}: not equal to itself')
    ctx.label(fmt.name, 'same' if same else 'different', case['how'][0])
    ctx.nontrivial(len(a1.items) > 1)
    # different formats
    other = resolve_format(case['fmt2'], len(v2.shape), ALL)
    if fmt.name == 'Buffer' or other.name == 'Buffer':
        if fmt.name == other.name or fmt.name == 'Buffer':
            u = a1.u
            seq = [a2.items[p] for p in v2.pos]
            # elements None of the sequence are unspecified
            seq_items = [u if v is None else v for v in seq]
            e = s1.equal(seq)
            need(bool(e) == ([a1.items[p] for p in v1.pos] == seq_items),
                 f'{what}: equal({seq}) gives {e!r}')
        return
    t2 = other.convert(s2)
    d1 = listing(s1, fmt, v1, a1)
    d2 = listing(t2, other, v2, a2)
    for a, b, x, y in ((s1, t2, d1, d2), (t2, s1, d2, d1)):
        e = a.equal(b)
        need(bool(e) == (x == y), f'{what} and the latter as {other}: equal gives {e!r}, '
             f'elements are {x} and {y}')
    ctx.label('equal' if d1 == d2 else 'not equal')
    if 0 not in v2.shape[:-1]:
        seq = nested(v2.shape, [a2.items[p] for p in v2.pos])
        x2 = {i: a1.u if a2.items[v2.at(i)] is None else a2.items[v2.at(i)]
              for i in v2.indices()}
        e = s1.equal(seq)
        need(bool(e) == (d1 == x2), f'{what}: equal({seq}) gives {e!r}')


def listing(s, fmt, view, array):
    """The elements that a storage lists."""
    if fmt.name == 'DM':
        return dict(stored_elements(s))
    result = {i: array.items[view.at(i)] for i in view.indices()}
    if fmt.sparse:
        result = {i: v for i, v in result.items() if v != array.u}
    return result


# ------------------------------------------------------------------------- F11

class Sequence(collections.UserList):
    """Sequence that is not a list."""


def check_windows(case, ctx):
    kind = case.get('kind', 'list')
    data = [100 + i if c == 0 else model.POOL[c % len(model.POOL)]
            for i, c in enumerate(case['data'])]
    period = case.get('period')
    if period:
        data = [data[i % period] for i in range(len(data))]
    value_of = int
    if kind == 'bytearray':
        data = bytearray(100 + i % (period or 99) for i in range(len(data)))

        def value_of(v):
            return v % 256
    elif kind == 'UserList':
        data = Sequence(data)
    ctx.label(kind)
    n = len(data)
    mirror = list(data)
    u = case['u']
    off = case['offset'] % (n + 1)
    size = case['size'] % (n - off + 1)
    b = storage.Buffer(size, off, data, unspecified=u)
    windows = [(b, size, off)]
    what = f'Buffer({size}, {off}, {mirror})'

    def verify(what):
        for b, size, off in windows:
            w = f'{what}: window ({size}, {off})'
            need(b.size == size and len(b) == size and tuple(b.shape) == (size,),
                 f'{w}: size is {b.size}, shape {b.shape}')
            need(eq(b.unspecified, u), f'{w}: unspecified value is {b.unspecified!r}')
            got = list(itertools.islice(iter(b), size + 2))
            need(len(got) == size and all(map(eq, got, mirror[off:off + size])),
                 f'{w}: iteration yields {got}, expected {mirror[off:off + size]}')
            for i in range(-off, n - off):
                need(eq(b[i], mirror[off + i]),
                     f'{w}: [{i}] is {b[i]!r}, expected {mirror[off + i]!r}')
                need(eq(b[(i,)], mirror[off + i]), f'{w}: [({i},)] is {b[(i,)]!r}')

    verify(what)
    for op in case['ops']:
        b, size, off = windows[op['on'] % len(windows)]
        if op['op'] == 'set':
            if n:
                i = op['a'] % n - off
                value = value_of(1000 + op['b'])
                what = f'window ({size}, {off}) of {mirror}: [{i}] = {value}'
                b[(i,) if op['b'] & 1 else i] = value
                mirror[off + i] = value
                verify(what)
                ctx.label('set', 'outside' if not 0 <= i < size else 'inside')
        elif op['op'] == 'slice':
            # bounds relative to the sequence, mostly within it
            a = None if op['a'] is None else op['a'] % (n + 4) - 2 - off
            z = None if op['b'] is None else op['b'] % (n + 5) - 2 - off
            start = off + a if a is not None else off
            if op['d'] & 2 and op['b'] is not None and 0 <= start < n:
                # something is left
                z = start + 1 + op['b'] % (n - start) - off
            stop = off + z if z is not None else off + size
            valid = 0 <= start < n and 0 < stop <= n
            step = op['c']
            index = slice(a, z, step)
            what = f'window ({size}, {off}) of {mirror}: [{index}]'
            if not valid:
                try:
                    r = b[index]
                except IndexError:
                    ctx.label('rejected')
                else:
                    fail(f'{what}: out of bounds but gives {r!r}')
                continue
            count = len(range(start, stop, step or 1))
            if step not in (None, 1):
                try:
                    r = b[index]
                except IndexError:
                    ctx.label('rejected step')
                    continue
                need(count <= 1, f'{what}: step is accepted and gives {r!r}')
                got = list(itertools.islice(iter(r), n + 2))
                need(len(got) == count and all(map(eq, got, mirror[start:start + count])),
                     f'{what}: gives {r!r}')
                continue
            new_size = max(0, stop - start)
            r = b[(index,) if op['d'] & 1 else index]
            need(isinstance(r, storage.Buffer), f'{what}: gives', type(r).__name__)
            if new_size:
                windows.append((r, new_size, start))
                ctx.label('grown' if new_size > size else 'shrunk')
                ctx.nontrivial(len(windows) > 2)
                verify(what)
            else:
                need(r.size == 0 and len(r) == 0 and list(iter(r)) == [], f'{what}: gives {r!r}')
                need(eq(r.unspecified, u), f'{what}: unspecified is {r.unspecified!r}')
                ctx.label('empty')
        elif op['op'] == 'copy':
            c = b.copy()
            what = f'copy of window ({size}, {off}) of {mirror}'
            need(c == b and not c != b, f'{what}: not equal')
            check_buffer(c, mirror[off:off + size], what)
            for i in range(size):
                c[i] = value_of(5000 + i)
            check_buffer(c, [value_of(5000 + i) for i in range(size)], what)
            verify(what)
            ctx.label('copy')
        else:
            u2, mirror2 = u, mirror
            which = 'whole' if op['a'] is None else ['any', 'any', 'moved', 'other'][op['d'] % 4]
            if which == 'any':
                b2, size2, off2 = windows[op['a'] % len(windows)]
            elif which == 'moved':
                # as long, in the same sequence
                size2, off2 = size, op['a'] % (n - size + 1)
                b2 = storage.Buffer(size2, off2, data, unspecified=u)
            elif which == 'other':
                # in another sequence, maybe with a different item
                off2 = op['a'] % 4
                items = mirror[off:off + size]
                if op['b'] and op['b'] % 2 and size:
                    items[op['b'] % size] = value_of(77)
                mirror2 = [value_of(88)] * off2 + items + [value_of(99)] * (op['a'] % 3)
                size2 = size
                b2 = storage.Buffer(size2, off2, type(data)(mirror2), unspecified=u)
            else:
                size2, off2, u2 = n, 0, u if op['d'] & 1 else 'w'
                b2 = storage.Buffer(n, 0, type(data)(mirror), unspecified=u2)
            same = eq(mirror[off:off + size], mirror2[off2:off2 + size2]) and eq(u2, u)
            what = (f'windows ({size}, {off}) of {mirror}, unspecified {u!r}, and ({size2}, {off2})'
                    f' of {mirror2}, unspecified {u2!r}')
            ctx.label('== ' + which)
            if which != 'any' and size:
                ctx.nontrivial(True)
            for x, y in ((b, b2), (b2, b)):
                need((x == y) is same and (x != y) is not same,
                     f'{what}: == gives {x == y}, != gives {x != y}, expected {same}')
            ctx.label('== ' + str(same))


@st.composite
def window_cases(draw):
    code = model.weighted((2, st.just(0)), (1, st.integers(0, 12)))
    opt = model.weighted((1, st.none()), (3, st.integers(0, 40)))
    op = st.fixed_dictionaries({
        'op': st.sampled_from(['slice', 'slice', 'set', 'slice', 'copy', 'eq', 'set']),
        'on': st.integers(0, 9), 'a': st.integers(0, 40), 'b': st.integers(0, 40),
        'c': st.just(None), 'd': st.sampled_from([0, 2, 3])})
    op2 = st.fixed_dictionaries({
        'op': st.sampled_from(['slice', 'slice', 'eq']), 'on': st.integers(0, 9),
        'a': opt, 'b': opt, 'c': st.sampled_from([None, 1, None, 2, -1, 3]),
        'd': st.integers(0, 3)})
    return {'data': draw(model.some(code, (5, 3, 8, 1, 12, 0))),
            'period': draw(model.weighted((3, st.none()), (2, st.integers(1, 3)))), 'u': draw(st.sampled_from(
            model.UNSPECIFIED)), 'offset': draw(st.integers(0, 30)),
            'size': draw(st.integers(0, 30)),
            'ops': draw(model.some(st.one_of(op, op2), (4, 7, 2, 10))),
            'kind': draw(model.weighted((4, st.just('list')), (1, st.just('bytearray')),
                                        (1, st.just('UserList'))))}


# ------------------------------------------------------------------------- F12

def check_compress(case, ctx):
    size, repeat = case['size'], case.get('repeat', 1)
    rows = sorted(r % size for r in case['rows'] for _ in range(repeat)) if size else []
    if repeat > 1 and len(set(rows)) > 1:
        # a part of the rows is not repeated
        rows = sorted(rows[::repeat] + [r for r in rows if r % 2])
    from . import basics
    compress, uncompress = storage.compress_indices, storage.uncompress_indices
    what = f'rows {rows} of {size}'
    given = tuple(rows) if case['tuple'] else list(rows)
    c = compress(given, size)
    need(list(given) == rows, f'{what}: the argument is changed to {given}')
    c = list(c)
    need(len(c) == size + 1, f'{what}: {c} has {len(c)} entries')
    need(c[0] == 0 and c[-1] == len(rows), f'{what}: {c} does not go from 0 to {len(rows)}')
    for r in range(size):
        need(c[r] <= c[r + 1], f'{what}: {c} decreases')
        need(c[r + 1] - c[r] == rows.count(r),
             f'{what}: {c} has {c[r + 1] - c[r]} entries in row {r}, expected {rows.count(r)}')
    need(list(uncompress(c)) == rows, f'{what}: uncompressed from {c} to {uncompress(c)}')
    if hasattr(basics.module, 'compress_indices'):
        other = basics.module.compress_indices(given, size)
        need(list(other) == c, f'{what}: gcs_basics gives {other}, gcs.storage gives {c}')
    buffer = storage.Buffer.fromobject(list(rows))
    need(list(compress(buffer, size)) == c, f'{what}: a Buffer of rows is compressed differently')
    # the other way around: counts -> compressed -> rows -> compressed
    form = [0]
    for k in case['counts']:
        form.append(form[-1] + k)
    rows2 = list(uncompress(form))
    need(rows2 == [r for r, k in enumerate(case['counts']) for _ in range(k)],
         f'{form} uncompressed to {rows2}')
    need(list(compress(rows2, len(form) - 1)) == form,
         f'{form} uncompressed to {rows2} and compressed to {compress(rows2, len(form) - 1)}')
    gaps = [r for r in range(size) if r not in rows]
    ctx.label('no rows' if not size else 'empty' if not rows else 'gaps' if gaps else 'dense')
    if len(rows) > 255:
        ctx.label('long rows')
    ctx.nontrivial(gaps and len(rows) > 1)


def enum_compress(tier):
    top = 4 if tier == 'quick' else 6
    for size in range(0, top + 1):
        for n in range(0, top + 1 if size else 1):
            for rows in itertools.combinations_with_replacement(range(size), n):
                yield {'size': size, 'rows': list(rows), 'tuple': bool(n & 1),
                       'counts': [rows.count(r) for r in range(size)]}


# ------------------------------------------------------------------------- F16

def printed_line(items):
    line = ', '.join(str(v) for v in items)
    if len(line) > 100:
        line = line[:40] + '.....' + line[-40:]
    return f'[{line}]'


def check_printed(case, ctx):
    array = Array(case['array'])
    view, cells = array.view, array.items
    fmt = resolve_format(case['fmt'], len(array.shape), PLAIN + ['Strided'] * 4 + ['Buffer'] * 2)
    root = fmt.build(array.nested(), **array.kwargs())
    what = f'{fmt} of shape {array.shape}'
    if not fmt.sparse:
        # elements that equal the unspecified value are kept
        cells = [array.u if v is None else v for v in array.raw]
    if fmt.name == 'Buffer':
        view = View.full((len(cells),))
    views = [(root, view, 0, '')]
    for code in case['windows' if fmt.name == 'Buffer' else 'chain']:
        s, view, first, path = views[-1]
        if fmt.name != 'Buffer':
            index, sel = resolve_nonelement(code, view.shape)
            views.append((s[index], view.select(sel), 0, f'{path}[{index!r}]'))
        elif view.pos:
            n = len(view.pos)
            a, b = code[0] % n, n - code[1] % n
            a, b = min(a, b - 1), b
            views.append((s[a:b], View((b - a,), view.pos[a:b]), first + a, f'{path}[{a}:{b}]'))
    for codes in [[]] + case.get('mutations', []):
        what = mutate(root, views[0][1], cells, array.u, fmt.sparse, codes, what,
                      buffer=fmt.name == 'Buffer')
        for s, view, first, path in views:
            # sparse slices are copies
            if not codes or not fmt.sparse or s is root:
                check_text(s, view, cells, first, array.u, f'{what} {path}', ctx)
    ctx.label(fmt.name)
    ctx.nontrivial(len(view.pos) > 1 and fmt.name in ('Strided', 'Buffer'))


def check_text(s, view, cells, first, u, what, ctx):
    items = [cells[p] for p in view.pos]
    if isinstance(s, storage.Buffer):
        text = str(items)
        if len(text) > 100:
            text = text[:40] + '.....' + text[-40:]
        before, after = first, len(cells) - first - len(items)
        expected = (f'Buffer({len(items)}, {first}, {"*" * (before // 10)}{"." * (before % 10)}'
                    f'{text}{"." * (after % 10)}{"*" * (after // 10)}, unspecified={u})')
        need(repr(s) == expected, f'{what}: repr is', repr(s), 'expected', expected)
        return
    need(repr(s).startswith(f'{type(s).__name__}({view.shape},'), f'{what}: repr is', repr(s))
    if isinstance(s, storage.Strided) and len(view.shape) == 1:
        need(str(s) == printed_line(items), f'{what}: str is', str(s), 'expected',
             printed_line(items))
        ctx.label('1-D')
    elif isinstance(s, storage.Strided) and len(view.shape) == 2:
        k = view.shape[1]
        rows = [printed_line(items[i * k:(i + 1) * k]) for i in range(view.shape[0])]
        lines = [line.strip() for line in str(s).split('\n')]
        need(lines[0][:1] == '[' and lines[-1][-1:] == ']', f'{what}: str is', str(s))
        lines = [line for line in [lines[0][1:].strip(), *lines[1:-1]] if line]
        need(lines == rows, f'{what}: str is', str(s), 'expected rows', rows)
        ctx.label('2-D')
    else:
        need(str(s) == repr(s), f'{what}: str is', str(s), 'repr is', repr(s))


# ------------------------------------------------------------------------- F13

def snapshot(s):
    """All public state of a storage."""
    if not isinstance(s, storage.Storage):
        if isinstance(s, (list, tuple)):
            return type(s)(snapshot(x) for x in s)
        return s
    state = [type(s).__name__]
    for name in ('shape', 'unspecified', 'size', 'offset', 'strides', 'rdimensions', 'rshapes',
                 'rstrides', 'roffset', 'indices', 'findices', 'crow_indices', 'col_indices',
                 'data'):
        if hasattr(s, name):
            state.append((name, snapshot(getattr(s, name))))
    return state


READS = ['element', 'slice', 'iter', 'elements', 'repr', 'str', 'eq', 'ne', 'equal', 'convert',
         'copy', 'copy_u', 'convert_u', 'len', 'full', 'equal_seq', 'contains']


def check_readonly(case, ctx):
    array = Array(case['array'])
    rank, view = len(array.shape), array.view
    seq = array.nested()
    seq0 = copy.deepcopy(seq)
    fmt = resolve_format(case['fmt'], rank, ALL)
    root = fmt.build(seq, **array.kwargs())
    what = f'{fmt} of {seq!r} u={array.u!r}'
    state0 = snapshot(root)
    s = root
    if fmt.name != 'Buffer':
        for code in case['chain']:
            index, sel = resolve_nonelement(code, view.shape)
            s, view = s[index], view.select(sel)
            what += f' [{index!r}]'
    else:
        view = View.full((len(view.pos),))
        for code in case.get('windows', []):
            n = len(view.pos)
            if n:
                b = n - code[1] % n
                a = min(code[0] % n, b - 1)
                s, view = s[a:b], View((b - a,), view.pos[a:b])
                what += f' [{a}:{b}]'
    state1 = snapshot(s)
    other = None
    for op in case['ops']:
        kind = op['op']
        if kind == 'element':
            for index in view.indices() if fmt.name != 'Buffer' else range(len(s)):
                s[index]
        elif kind == 'slice':
            if fmt.name != 'Buffer':
                s[resolve_nonelement(op['index'], view.shape)[0]]
            elif len(s):
                s[:]
        elif kind == 'iter':
            list(itertools.islice(iter(s), len(s) + 2))
        elif kind == 'elements':
            stored_elements(s)
        elif kind == 'repr':
            need(isinstance(repr(s), str), f'{what}: repr gives', repr(s))
        elif kind == 'str':
            need(isinstance(str(s), str), f'{what}: str gives', str(s))
        elif kind == 'eq':
            s == s.copy(), s == other, s == seq
        elif kind == 'ne':
            s != s.copy(), s != root, s != None  # noqa: E711
        elif kind == 'equal':
            s.equal(s.copy())
            if other is not None and fmt.name != 'Buffer' and type(other) is not storage.Buffer:
                s.equal(other)
        elif kind == 'equal_seq':
            s.equal(seq if fmt.name != 'Buffer' else array.items)
        elif kind == 'convert':
            to = resolve_format(op['fmt'], len(s.shape), ALL)
            other = to.convert(s)
        elif kind == 'convert_u':
            to = resolve_format(op['fmt'], len(s.shape), ALL)
            other = to.convert(s, unspecified=op['u'])
        elif kind == 'copy':
            s.copy()
        elif kind == 'copy_u':
            s.copy(unspecified=op['u'])
        elif kind == 'len':
            len(s), s.size, s.shape, s.strides, s.unspecified
        elif kind == 'full':
            s.is_full()
        elif kind == 'contains':
            None in list(itertools.islice(iter(s), len(s) + 2))
        ctx.label(kind)
        now = snapshot(s)
        need(now == state1, f'{what}: {kind} changes it from {state1} to {now}')
    need(snapshot(root) == state0, f'{what}: the sliced storage is changed')
    need(seq == seq0, f'{what}: the sequence is changed to {seq}')
    if view.pos and not fmt.sparse and s is not root:
        # what is shared is still shared
        k = case.get('probe', 0) % len(view.pos)
        inner, outer = k, view.pos[k]
        if fmt.name != 'Buffer':
            inner = next(itertools.islice(view.indices(), inner, None))
            outer = next(itertools.islice(array.view.indices(), outer, None))
        for a, i, b, j in ((s, inner, root, outer), (root, outer, s, inner)):
            value = object()
            a[i] = value
            need(b[j] is value, f'{what}: after {[op["op"] for op in case["ops"]]}, the slice'
                 f' no longer shares element {inner}')
        ctx.label('sharing')
    ctx.nontrivial(len(case['ops']) > 1 and len(array.items) > 1)
    ctx.label(fmt.name)


READ = st.fixed_dictionaries({
    'op': st.sampled_from(READS), 'index': INDEX, 'fmt': FORMATS,
    'u': st.sampled_from(model.UNSPECIFIED + [100])})

SMALL = dict(cap=24)

PROPERTIES = {p.id: p for p in [
    Property(
        'F01',
        'Arrays (rank 1-5, up to 60 elements, sparsity patterns, values and unspecified values of'
        ' several types) built into Buffer/Strided/COO/FlatCOO/CSR from nested lists, tuples or'
        ' any storage (DM included); every element read by full, negative and chained integers;'
        ' arrays that are a part of a sequence or are read from it through a map of indices.'
        ' Non-trivial: has unspecified elements, is built from a storage, or is not the sequence.',
        [Sub('build', check_build,
             case_of(array=arrays(), fmt=FORMATS, src=st.one_of(st.none(), FORMATS),
                     rows=st.none() | st.none() | FORMATS),
             quick=8000),
         Sub('mapped', check_mapped,
             case_of(array=arrays(cap=30), fmt=FORMATS, src=st.one_of(st.none(), FORMATS),
                     chain=st.none() | model.chains(model.nonint_items, (0, 1, 2, 0)),
                     perm=st.integers(0, 119), sizes=st.lists(st.integers(1, 4), min_size=7,
                                                              max_size=7)),
             quick=3000)],
        ['unspecified values that are not equal to themselves (NaN) are outside of the claim']),
    Property(
        'F02',
        'Arrays x sparse formats x chains of slices and conversions among sparse formats; the'
        ' stored form recomputed from the dense model after every step; all sparsity patterns of'
        ' small shapes. Non-trivial: some but not all elements specified, at least one step.',
        [Sub('canonical', check_canonical_chain,
             case_of(array=arrays(cap=40), fmt=FORMATS,
                     steps=model.some(st.one_of(model.index_codes(model.nonint_items), FORMATS),
                                      (1, 2, 3, 4)),
                     mutations=model.MUTATIONS),
             quick=6000, enum=enum_canonical)]),
    Property(
        'F03',
        'Arrays x two conversion chains (0-3 intermediate formats, DM with any mapping included)'
        ' to a common format; content after every step, and == among both results and the'
        ' directly built storage. Non-trivial: some elements specified, some not, and a chain of'
        ' at least one intermediate format.',
        [Sub('chains', check_conversions,
             case_of(array=arrays(cap=40), last=FORMATS,
                     chains=model.some(model.some(FORMATS, (1, 2, 3, 0)), (2,)),
                     mutations=model.MUTATIONS),
             quick=5000)]),
    Property(
        'F04',
        'Arrays x formats x slice chains (Buffer: windows) x copy/convert with a new unspecified value (new, equal'
        ' to the old one, or equal to existing elements). Non-trivial: the unspecified value'
        ' changes and there are unspecified elements.',
        [Sub('unspecified', check_unspecified,
             case_of(array=arrays(cap=40), src=FORMATS, u2=st.none(),
                     chain=model.chains(model.nonint_items, (0, 1, 2, 0)),
                     window=st.none() | st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list),
                     ops=model.some(OPS_F04, (1, 2))),
             quick=6000)]),
    Property(
        'F05',
        'Arrays x Strided/COO/FlatCOO/CSR x chains of 1-4 indices (integers, slices of any step'
        ' sign, None, omitted axes), content of every intermediate result, then a conversion.'
        ' Non-trivial: the result has several elements and differs from the array, or an element'
        ' of a slice is read.',
        [Sub('slicing', check_slicing(PLAIN),
             case_of(array=arrays(), fmt=FORMATS, chain=model.chains(),
                     to=st.one_of(st.none(), FORMATS),
                     mutations=model.MUTATIONS),
             quick=8000)]),
    Property(
        'F06',
        'Histories of 1-6 assignments to elements and slices of Strided/COO/FlatCOO/CSR, with'
        ' right-hand sides: nested lists, tuples, storages, views of the same storage (shifted,'
        ' reversed), too small ones; all elements read back after each. Non-trivial: array of'
        ' several elements.',
        [Sub('assign', check_assignments(PLAIN),
             case_of(array=arrays(cap=30), fmt=FORMATS, ops=model.some(ASSIGN, (2, 3, 1, 6))),
             quick=7000)]),
    Property(
        'F07',
        'Histories of slices, copies, conversions and assignments over a pool of up to 7 storages'
        ' that share cells in the model; all storages read after each assignment. Non-trivial: an'
        ' assignment while at least one view, slice or copy exists.',
        [Sub('sharing', check_sharing(PLAIN + ['Strided', 'Buffer'], PLAIN + ['Buffer', 'DM']),
             case_of(array=arrays(cap=20), fmt=FORMATS,
                     ops=model.some(model.weighted((2, SLICE), (3, ASSIGN), (1, COPY), (1, CONVERT),
                                                    (1, AGAIN)),
                                    (3, 5, 8, 10))),
             quick=6000)]),
    Property(
        'F08',
        'Arrays x all formats x slice chains; elements(), size, len and is_full of every'
        ' intermediate result. Non-trivial: several stored elements, and a slice or unspecified'
        ' elements.',
        [Sub('elements', check_elements,
             case_of(array=arrays(cap=40), fmt=FORMATS,
                     chain=model.chains(model.nonint_items, (0, 1, 2, 3)),
                     mutations=model.MUTATIONS),
             quick=7000)]),
    Property(
        'F09',
        'Arrays x formats (DM included) x slice chains x invalid indices (out of range by 1 or'
        ' more at any axis, too many, wrong types) for reading and assigning; iteration.'
        ' Non-trivial: every case with an invalid index.',
        [Sub('invalid', check_invalid,
             case_of(array=arrays(cap=24), fmt=FORMATS,
                     chain=model.chains(model.nonint_items, (0, 1, 2, 0)),
                     bad=model.some(BAD, (1, 2))),
             quick=7000)]),
    Property(
        'F10',
        'Pairs of arrays that differ in at most one respect (an element, two elements swapped,'
        ' sparsity, shape, unspecified value), in the same format and after the same indexing: =='
        ' and !=; equal() among formats and with nested lists. Non-trivial: several elements.',
        [Sub('equality', check_equality,
             case_of(array=arrays(cap=30), how=PERTURB, fmt=FORMATS, fmt2=FORMATS,
                     chain=model.chains(model.nonint_items, (0, 0, 1, 2)),
                     mutations=model.MUTATIONS),
             quick=8000)]),
    Property(
        'F11',
        'Histories of slicing, writing, copying and comparing Buffer windows over one sequence,'
        ' every item before, in and after every window read after each step. Non-trivial: at'
        ' least two windows derived from the first.',
        [Sub('windows', check_windows, window_cases, quick=7000)]),
    Property(
        'F12',
        'Sorted row lists (empty rows, repeated rows) x row counts, and valid compressed forms;'
        ' all lists of up to 4 (thorough: 6) rows. Non-trivial: several rows and an empty row.',
        [Sub('compress', check_compress,
             case_of(size=st.integers(0, 15), rows=st.lists(st.integers(0, 400), max_size=20),
                     tuple=st.booleans(),
                     counts=st.lists(st.integers(0, 4), max_size=12),
                     repeat=model.weighted((60, st.just(1)), (2, st.just(300)), (1, st.just(9000)))),
             quick=12000, enum=enum_compress)]),
    Property(
        'F16',
        'Arrays x formats x slice chains: the printed text of 1-D and 2-D Strided arrays has their'
        ' elements, the one of Buffer its window and the number of items around it.'
        ' Non-trivial: several elements of a Strided or Buffer.',
        [Sub('printed', check_printed,
             case_of(array=arrays(), fmt=FORMATS,
                     chain=model.chains(model.nonint_items, (0, 1, 2, 3)),
                     windows=st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list),
                                      max_size=2),
                     mutations=model.MUTATIONS),
             quick=4000)]),
    Property(
        'F13',
        'Arrays x all formats x slice chains x sequences of read-only operations, with a deep'
        ' snapshot of the public state of the storage, the sliced storage and the source sequence'
        ' compared after each. Non-trivial: several operations on several elements.',
        [Sub('readonly', check_readonly,
             case_of(array=arrays(cap=24), fmt=FORMATS,
                     chain=model.chains(model.nonint_items, (0, 1, 2, 0)),
                     windows=st.lists(st.tuples(st.integers(0, 23), st.integers(0, 23)),
                                      max_size=2),
                     probe=st.integers(0, 23), ops=model.some(READ, (2, 3, 5))),
             quick=6000)]),
]}
