"""F14, F15, D08: storages that are assembled from their parts.

The arrays are defined by the parts, according to the definition of each
format, rather than by a nested sequence.
"""
import itertools
import math

from hypothesis import strategies as st

from . import model
from .build import ALL, ARRAYS, FORMATS, PLAIN, SPARSE, check_storage, resolve_format, stored_elements
from .core import Property, Sub, need
from .formats import (AGAIN, ASSIGN, CONVERT, COPY, OPS_F04, SLICE, Entry, World, assignment,
                      sharing)
from .model import View, check_content, eq, mutate, resolve_index, same, weighted
from .target import storage


def values(n, u, holes):
    """n values, unspecified at the bits of holes."""
    return [u if holes >> i & 1 else 100 + i for i in range(n)]


def window(items, before, after):
    """Buffer of items that is a window of a longer sequence."""
    data = ['before'] * before + list(items) + ['after'] * after
    return storage.Buffer(len(items), before, data)


def data_window(items, before, after, u):
    data = [-5] * before + list(items) + [-6] * after
    return storage.Buffer(len(items), before, data, unspecified=u)


# ------------------------------------------------------------------------- F14

@st.composite
def part_cases(draw):
    kind = draw(st.sampled_from(['Strided', 'COO', 'FlatCOO', 'CSR', 'Strided']))
    case = {'kind': kind, 'u': draw(st.sampled_from([None, 0, -1, 'x'])),
            'holes': draw(st.integers(0, 2**24)), 'before': draw(st.integers(0, 3)),
            'after': draw(st.integers(0, 3))}
    if kind == 'Strided':
        case['shape'] = draw(model.shapes(max_rank=4, cap=24, zero=False))
        rank = len(case['shape'])
        case['order'] = draw(st.permutations(range(rank)))
        case['gaps'] = draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=rank,
                                     max_size=rank))
        case['signs'] = draw(st.lists(st.booleans(), min_size=rank, max_size=rank))
        case['broadcast'] = draw(weighted((4, st.none()), (1, st.integers(0, 3))))
    else:
        case['shape'] = draw(model.shapes(min_rank=2 if kind == 'CSR' else 1,
                                          max_rank=2 if kind == 'CSR' else 4, cap=24, zero=False))
        case['mask'] = draw(st.integers(0, (1 << math.prod(case['shape'])) - 1))
        case['layout'] = draw(st.integers(0, 2))
    case['chain'] = draw(model.chains(lengths=(0, 1, 2, 3)))
    case['to'] = draw(st.none() | FORMATS)
    case['ops'] = draw(model.some(ASSIGN, (0, 1, 2)))
    case['mutations'] = draw(model.MUTATIONS)
    return case


def strided_parts(case):
    """Return (storage, view, cells, unique)."""
    shape, u = tuple(case['shape']), case['u']
    rank = len(shape)
    strides, step = [0] * rank, 1
    for axis in case['order']:
        step += case['gaps'][axis]
        strides[axis] = step
        step *= shape[axis]
    unique = True
    if case['broadcast'] is not None:
        axis = case['broadcast'] % rank
        strides[axis] = 0
        unique = shape[axis] == 1
    strides = tuple(-s if neg else s for s, neg in zip(strides, case['signs']))
    low = sum(min(0, (n - 1) * s) for n, s in zip(shape, strides))
    high = sum(max(0, (n - 1) * s) for n, s in zip(shape, strides))
    offset = case['before'] - low
    n = offset + high + 1 + case['after']
    cells = values(n, u, case['holes'])
    data = storage.Buffer(high + 1, offset, list(cells), unspecified=u)
    s = storage.Strided(shape, strides, data)
    pos = [offset + sum(a * b for a, b in zip(index, strides))
           for index in itertools.product(*map(range, shape))]
    return s, View(shape, pos), cells, unique


def sparse_parts(case):
    shape, u = tuple(case['shape']), case['u']
    view = View.full(shape)
    stored = [index for index in view.indices() if case['mask'] >> view.at(index) & 1]
    # stored elements may be equal to the unspecified value
    items = values(len(stored), u, case['holes'] & 0x111111)
    before, after, layout = case['before'], case['after'], case['layout']
    data = data_window(items, before, after, u)
    kind, n, rank = case['kind'], len(stored), len(shape)
    if kind == 'COO':
        rows = [[index[i] for index in stored] for i in range(rank)]
        if layout == 0:
            flat, strides = sum(rows, []), (n, 1)
        elif layout == 1:
            # one index after the other
            flat, strides = [i for index in stored for i in index], (1, rank)
        else:
            # rows are spaced
            flat, strides = [i for row in rows for i in row + [-7]], (n + 1, 1)
        s = storage.COO(shape, storage.Strided((rank, n), strides, window(flat, before, after)),
                        data)
    elif kind == 'FlatCOO':
        s = storage.FlatCOO(shape, window([view.flat(index) for index in stored], after, before),
                            data)
    else:
        crow = [sum(i < r for i, _ in stored) for r in range(shape[0] + 1)]
        s = storage.CSR(shape, window(crow, after, before),
                        window([j for _, j in stored], before, after), data)
    cells = [u] * len(view.pos)
    for index, value in zip(stored, items):
        cells[view.at(index)] = value
    return s, view, cells, set(view.at(index) for index in stored)


def check_parts(case, ctx):
    u, kind = case['u'], case['kind']
    stored = None
    if kind == 'Strided':
        root, view0, cells, unique = strided_parts(case)
        ctx.label('broadcast' if not unique else 'strided')
    else:
        root, view0, cells, stored = sparse_parts(case)
        unique = True
        ctx.label('stored unspecified' if any(cells[p] == u for p in stored) else 'canonical')
    what = f'{kind} {repr(root)}'
    ctx.label(kind)
    parts_content(root, kind, view0, cells, stored, what, case, ctx)
    for codes in case.get('mutations', []) if unique else []:
        what = mutate(root, view0, cells, u, stored is not None, codes, what)
        parts_content(root, kind, view0, cells, stored, what, case, ctx)
    if unique and case['ops']:
        world = World.of(root, view0, cells, ctx, kind, stored, u, what)
        for op in case['ops']:
            text = assignment(world, world.entries[0], op, '')
            if text is not None:
                world.check_all(text)
        ctx.label('assigned')


def parts_content(root, kind, view0, cells, stored, what, case, ctx):
    u = case['u']
    check_content(root, view0, cells, what, negative=True)
    need(eq(root.unspecified, u), f'{what}: unspecified value is {root.unspecified!r}')
    listed = stored_elements(root)
    expected = [(i, cells[view0.at(i)]) for i in view0.indices()
                if stored is None or view0.at(i) in stored]
    need(len(listed) == len(expected) and all(a == b and eq(x, y) for (a, x), (b, y)
                                              in zip(listed, expected)),
         f'{what}: elements are {listed}, expected {expected}')
    need(root.size == len(expected), f'{what}: size is {root.size}, expected {len(expected)}')
    need(bool(root.is_full()) == (len(expected) == len(view0.pos)),
         f'{what}: is_full is {root.is_full()!r}')
    t = root.copy()
    check_content(t, view0, cells, what + ' copy')
    s, view = root, view0
    for code in case['chain']:
        index, sel = resolve_index(code, view.shape)
        what += f' [{index!r}]'
        s, view = s[index], view.select(sel)
        if not isinstance(view, View):
            need(eq(s, cells[view]), f'{what}: got {s!r}, expected {cells[view]!r}')
            break
        check_content(s, view, cells, what)
    if isinstance(view, View) and case['to'] is not None:
        to = resolve_format(case['to'], len(view.shape), ALL)
        t = to.convert(s)
        tview = view if to.name != 'Buffer' else View((len(view.pos),), view.pos)
        check_storage(t, to, tview, cells, u, f'{what} -> {to}')
        ctx.label('converted')
    ctx.nontrivial(len(set(view0.pos)) > 1)


# ------------------------------------------- F03-F07, F10 for assembled storages

def assembled(case, ctx):
    """Return (storage, view, cells, stored positions, unique, description)."""
    kind, stored, unique = case['kind'], None, True
    if kind == 'Strided':
        root, view, cells, unique = strided_parts(case)
    else:
        root, view, cells, stored = sparse_parts(case)
    ctx.label(kind)
    ctx.nontrivial(len(set(view.pos)) > 1)
    return root, view, cells, stored, unique, f'{kind} {root!r}'


def rounds(case, root, view, cells, stored, unique, what):
    """Before and after assignments."""
    yield what
    for codes in case['mutations'] if unique else []:
        what = mutate(root, view, cells, case['u'], stored is not None, codes, what)
        yield what


def check_assembled_conversions(case, ctx):
    root, view, cells, *rest = assembled(case, ctx)
    u, rank = case['u'], len(view.shape)
    for what in rounds(case, root, view, cells, *rest):
        for chain in case['chains']:
            s, path, tview = root, what, view
            for k, code in enumerate(chain):
                last = k == len(chain) - 1
                to = resolve_format(code, rank, ALL if rank == 1 or last else ARRAYS)
                s = to.convert(s)
                path += f' -> {to}'
                tview = View((len(view.pos),), view.pos) if to.name == 'Buffer' else view
                check_storage(s, to, tview, cells, u, path)
        check_content(root, view, cells, f'{what}, converted:')


def check_assembled_unspecified(case, ctx):
    root, view, cells, *rest = assembled(case, ctx)
    u, rank = case['u'], len(view.shape)
    for what in rounds(case, root, view, cells, *rest):
        for op in case['ops']:
            u2 = op['u']
            expected = [u2 if v == u else v for v in cells]
            if op['copy']:
                t = root.copy(unspecified=u2)
                path = f'{what} copy(unspecified={u2!r})'
                check_content(t, view, expected, path)
                need(eq(t.unspecified, u2), f'{path}: unspecified value is {t.unspecified!r}')
            else:
                to = resolve_format(op['fmt'], rank, ALL)
                t = to.convert(root, unspecified=u2)
                tview = View((len(view.pos),), view.pos) if to.name == 'Buffer' else view
                check_storage(t, to, tview, expected, u2, f'{what} as {to}(unspecified={u2!r})')
            check_content(root, view, cells, f'{what}, given unspecified value {u2!r}:')


def check_assembled_slicing(case, ctx):
    root, view0, cells, *rest = assembled(case, ctx)
    for what in rounds(case, root, view0, cells, *rest):
        s, view = root, view0
        for code in case['chain']:
            index, sel = resolve_index(code, view.shape)
            what += f' [{index!r}]'
            s, view = s[index], view.select(sel)
            if not isinstance(view, View):
                need(same(s, cells[view], case['u']), f'{what}: got {s!r}, expected {cells[view]!r}')
                break
            check_content(s, view, cells, what, negative=True)
            need(eq(s.unspecified, case['u']), f'{what}: unspecified value is {s.unspecified!r}')


def check_assembled_histories(only_root):
    def check(case, ctx):
        case = dict(case, broadcast=None)
        root, view, cells, stored, _, what = assembled(case, ctx)
        world = World.of(root, view, cells, ctx, case['kind'], stored, case['u'], what)
        if not only_root:
            return sharing(world, case['history'], ctx, PLAIN + ['Buffer', 'DM'])
        for op in case['history']:
            text = assignment(world, world.entries[0], op, '')
            if text is not None:
                world.check_all(text)
    return check


def check_assembled_equality(case, ctx):
    root, view, cells, stored, unique, what = assembled(case, ctx)
    other = dict(case, before=case['before2'], after=case['after2'])
    twin, tview, tcells, _, _, what2 = assembled(other, ctx)
    alike = all(eq(cells[p], tcells[q]) for p, q in zip(view.pos, tview.pos))
    for a, b in ((root, twin), (twin, root), (twin.copy(), root.copy())):
        need((a == b) is alike and (a != b) is not alike,
             f'{what} and {what2} are {"equal" if a == b else "different"}: {a!r} {b!r}')
    places = [k for k, p in enumerate(view.pos) if stored is None or p in stored]
    if places and alike:
        k = places[case['at'] % len(places)]
        index = next(itertools.islice(view.indices(), k, None))
        twin[index] = 'other'
        need(twin[index] == 'other', f'{what2}: element {index} is {twin[index]!r}')
        for a, b in ((root, twin), (twin, root), (twin.copy(), root.copy())):
            need(a != b and not a == b, f'{what2} with another element {index} equals {what}')
        ctx.label('changed')


@st.composite
def assembled_cases(draw, **more):
    case = draw(part_cases())
    for name in ('to', 'ops') + (() if 'chain' in more else ('chain',)):
        del case[name]
    for name, strategy in more.items():
        case[name] = draw(strategy)
    return case


def case_of(**more):
    return lambda: assembled_cases(**more)


EXTRA = {
    'F03': [Sub('assembled', check_assembled_conversions,
                case_of(chains=model.some(model.some(FORMATS, (1, 2, 3)), (1, 2))), quick=2500)],
    'F04': [Sub('assembled', check_assembled_unspecified,
                case_of(ops=model.some(OPS_F04, (1, 2))), quick=2500)],
    'F05': [Sub('assembled', check_assembled_slicing,
                case_of(chain=model.chains()), quick=2500)],
    'F06': [Sub('assembled', check_assembled_histories(True),
                case_of(history=model.some(ASSIGN, (2, 3, 1))), quick=2500)],
    'F07': [Sub('assembled', check_assembled_histories(False),
                case_of(history=model.some(weighted((2, SLICE), (3, ASSIGN), (1, COPY),
                                                    (1, CONVERT), (1, AGAIN)), (3, 5, 8))),
                quick=2000)],
    'F10': [Sub('assembled', check_assembled_equality,
                case_of(before2=st.integers(0, 3), after2=st.integers(0, 3),
                        at=st.integers(0, 23)), quick=2500)],
}


# ------------------------------------------------------------------------- F15

SIZE = weighted((2, st.integers(1, 5)), (2, st.integers(6, 1000)), (2, st.integers(10**5, 10**7)),
                (1, st.integers(2**31 - 5, 2**33)), (1, st.sampled_from([10**9, 10**18, 2**63 - 1])))
HUGE_ITEM = weighted(
    (1, st.tuples(st.just('n'), st.integers(0, 20), st.sampled_from([0, 0, 0, -1, 1])).map(list)),
    (2, st.tuples(st.just('r'), st.integers(0, 2**40), st.integers(0, 2**62),
              weighted((3, st.sampled_from([1, -1, 2, -2, 3])), (1, st.integers(1, 50)),
                       (1, st.integers(-50, -1))), st.integers(0, 7)).map(list)),
    (4, st.tuples(st.just('t'), st.integers(0, 20), st.integers(0, 20),
                  st.sampled_from([1, -1, 1, -1, 2, -3])).map(list)),
    (4, st.none()),
    (4, st.tuples(st.just('s'), st.none(), st.none(),
                  st.sampled_from([-1, -1, 2, None, -2])).map(list)))
HUGE_CHAIN = model.some(st.lists(HUGE_ITEM, min_size=1, max_size=4), (1, 2, 3, 1, 0))


@st.composite
def huge_cases(draw):
    kind = draw(st.sampled_from(['COO', 'FlatCOO', 'COO', 'FlatCOO', 'CSR']))
    rank = 2 if kind == 'CSR' else draw(st.sampled_from([1, 2, 3, 2, 3, 4]))
    shape = draw(st.lists(SIZE, min_size=rank, max_size=rank))
    if kind == 'CSR':
        shape[0] = shape[0] % 40 + 1
    # elements share coordinates now and then
    pools = [draw(st.lists(st.integers(0, 2**70), min_size=1, max_size=6)) for _ in shape]
    stored = draw(model.some(st.tuples(*[st.integers(0, 5)] * rank).map(list),
                             (2, 5, 8, 14, 10, 1, 0)))
    return {'kind': kind, 'shape': shape, 'pools': pools, 'stored': stored,
            'edges': draw(st.integers(0, 3)), 'chain': draw(HUGE_CHAIN),
            'assign': draw(st.none() | st.lists(HUGE_ITEM, min_size=1, max_size=4)),
            'rhs': draw(st.sampled_from(['COO', 'FlatCOO']))}


def huge_item(code, n, used):
    """Index item; used are the coordinates of stored elements."""
    if code is None:
        return None
    if code[0] == 'n':
        # the coordinate of a stored element, or one nearby
        return (used[code[1] % len(used)] + code[2]) % n if used else 0
    if code[0] == 't':
        # from one stored element to another
        if not used:
            return slice(None)
        a, b = used[code[1] % len(used)], used[code[2] % len(used)]
        lo, hi, step = min(a, b), max(a, b), code[3]
        if step > 0:
            return slice(lo, hi + 1, step)
        return slice(hi, lo - 1 if lo else None, step)
    if code[0] == 'r':
        return model.region(n, *code[1:])
    return slice(*code[1:])


def buffer(seq):
    return storage.Buffer(len(seq), 0, seq)


def sparse(kind, shape, items):
    """COO, FlatCOO or CSR storage with given elements, a sorted list."""
    data = storage.Buffer(len(items), 0, [v for _, v in items], unspecified=None)
    if kind == 'COO':
        indices = [i[k] for k in range(len(shape)) for i, _ in items]
        return storage.COO(shape, storage.Strided((len(shape), len(items)), (len(items), 1),
                                                  buffer(indices)), data)
    if kind == 'FlatCOO':
        flat = []
        for index, _ in items:
            p = 0
            for i, n in zip(index, shape):
                p = p * n + i
            flat.append(p)
        return storage.FlatCOO(shape, buffer(flat), data)
    crow = [sum(i[0] < r for i, _ in items) for r in range(shape[0] + 1)]
    return storage.CSR(shape, buffer(crow), buffer([i[1] for i, _ in items]), data)


def check_huge(case, ctx):
    kind, shape = case['kind'], tuple(case['shape'])
    rank = len(shape)
    pools = []
    for n, pool in zip(shape, case['pools']):
        pools.append([v % n for v in pool] + ([0, n - 1] if case['edges'] & 1 else []))
    elements = sorted({tuple(pools[k][i % len(pools[k])] for k, i in enumerate(codes))
                       for codes in case['stored']})
    items = [(index, 10 + i) for i, index in enumerate(elements)]

    s = sparse(kind, shape, items)
    what = f'{kind} of shape {shape} with elements {items}'
    ctx.label(kind, f'rank {rank}')

    def verify(s, shape, items, what):
        need(s.shape == shape, f'{what}: shape is {s.shape}, expected {shape}')
        # listed in order, in full
        listed = stored_elements(s)
        need(listed == items, f'{what}: elements are {listed}, expected {items}')
        need(s.size == len(items), f'{what}: size is {s.size}, expected {len(items)}')
        full = math.prod(shape) == len(items)
        need(bool(s.is_full()) == full, f'{what}: is_full is {s.is_full()}')
        known = dict(items)
        for index, value in items:
            need(s[index] == value, f'{what}: element {index} is {s[index]!r}, expected {value}')
            near = tuple(i - n for i, n in zip(index, shape))
            need(s[near] == value, f'{what}: element {near} is {s[near]!r}, expected {value}')
            for k in range(len(shape)):
                for step in (-1, 1):
                    other = index[:k] + ((index[k] + step) % shape[k],) + index[k + 1:]
                    got = s[other]
                    need(eq(got, known.get(other)),
                         f'{what}: element {other} is {got!r}, expected {known.get(other)}')

    verify(s, shape, items, what)
    for codes in case['chain']:
        index = tuple(huge_item(c, n, [i[k] for i, _ in items])
                      for k, (c, n) in enumerate(zip(codes, shape)) if n)
        if 0 in shape:
            break
        if kind == 'CSR' and len(shape) == 2 and math.prod(shape) > 3000 and any(
                not isinstance(i, int) for i in index + (None,) * (2 - len(index))):
            # a row or column of CSR is made by enumerating it: slow, not wrong
            index = tuple(slice(i, i + 1) if isinstance(i, int) else i for i in index)
        what += f' [{index!r}]'
        ranges = [range(n)[slice(None) if i is None else i]
                  for n, i in zip(shape, index + (None,) * (len(shape) - len(index)))]
        got = s[index]
        if all(isinstance(r, int) for r in ranges):
            expected = dict(items).get(tuple(ranges))
            need(eq(got, expected), f'{what}: got {got!r}, expected {expected}')
            ctx.label('element')
            break
        selected = []
        for i, v in items:
            if all(c == r if isinstance(r, int) else c in r for c, r in zip(i, ranges)):
                selected.append((tuple(r.index(c) for c, r in zip(i, ranges)
                                       if not isinstance(r, int)), v))
        items = sorted(selected)
        shape = tuple(length(r) for r in ranges if not isinstance(r, int))
        s = got
        verify(s, shape, items, what)
        ctx.label('sliced', f'{min(len(items), 3)} or more elements')
        ctx.nontrivial(len(items) > 1)
    # conversions that depend on the stored elements only
    if kind in ('COO', 'FlatCOO') or len(shape) == 1:
        t = s.as_FlatCOO() if isinstance(s, storage.COO) else s.as_COO()
        verify(t, shape, items, f'{what} as {type(t).__name__}')
        back = t.as_FlatCOO() if isinstance(t, storage.COO) else t.as_COO()
        verify(back, shape, items, f'{what} as {type(t).__name__} and back')
        need(back == s and not back != s, f'{what}: not equal after converting to'
             f' {type(t).__name__} and back')
        if isinstance(s, storage.COO) and len(shape) == 2 and shape[0] < 2000:
            verify(s.as_CSR(), shape, items, f'{what} as CSR')
    c = s.copy()
    verify(c, shape, items, f'{what}: copy')
    need(c == s, f'{what}: the copy is not equal')
    if case.get('assign') and 0 not in shape and items:
        # all stored elements of a slice
        index = tuple(huge_item(c, n, [i[k] for i, _ in items])
                      for k, (c, n) in enumerate(zip(case['assign'], shape)))
        ranges = [range(n)[slice(None) if i is None else i]
                  for n, i in zip(shape, index + (None,) * (len(shape) - len(index)))]
        what += f' [{index!r}] ='
        if all(isinstance(r, int) for r in ranges):
            if tuple(ranges) not in dict(items):
                return
            s[index] = 'new'
            items = [(i, 'new' if i == tuple(ranges) else v) for i, v in items]
        else:
            right = []
            for k, (i, v) in enumerate(items):
                if all(c == r if isinstance(r, int) else c in r for c, r in zip(i, ranges)):
                    right.append((tuple(r.index(c) for c, r in zip(i, ranges)
                                        if not isinstance(r, int)), f'new {k}'))
                    items[k] = (i, f'new {k}')
            s[index] = sparse(case['rhs'], tuple(length(r) for r in ranges
                                                 if not isinstance(r, int)), sorted(right))
            ctx.label(f'assigned {min(len(right), 3)} or more elements')
        verify(s, shape, items, what)


def length(r):
    """len of any range."""
    if r.step > 0:
        return max(0, -((r.start - r.stop) // r.step))
    return max(0, -((r.stop - r.start) // -r.step))


# ------------------------------------------------------------------------- D08

@st.composite
def mapping_parts(draw):
    shape = draw(model.shapes(max_rank=4, cap=24, zero=False))
    rank = len(shape)
    return {
        'shape': shape, 'dm': draw(model.DM_CODES),
        'orders': draw(st.lists(st.integers(0, 23), min_size=rank, max_size=rank)),
        'gaps': draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=rank, max_size=rank)),
        'signs': draw(st.lists(weighted((2, st.just(False)), (1, st.just(True))),
                               min_size=rank, max_size=rank)),
        'before': draw(st.lists(st.integers(0, 2), min_size=rank, max_size=rank)),
        'after': draw(st.lists(st.integers(0, 2), min_size=rank, max_size=rank)),
        'holes': draw(st.one_of(st.just(0), st.integers(0, 2**60))),
        'u': draw(st.sampled_from([None, 0, -1])),
        'inner': draw(st.integers(0, 20)),
        'chain': draw(model.chains(lengths=(0, 1, 2, 3))),
        'to': draw(st.none() | FORMATS),
        'ops': draw(model.some(ASSIGN, (0, 1, 2))), 'mutations': draw(model.MUTATIONS)}


def check_mapping_parts(case, ctx):
    """DM over a larger storage, with any strides and offsets."""
    shape, u = tuple(case['shape']), case['u']
    rank = len(shape)
    groups = model.resolve_mapping(case['dm'][:3] + [0], rank)['groups']
    rstrides, roffset, sizes = [], [], []
    for k, g in enumerate(groups):
        # innermost first, in any order
        order = model.nth_permutation(case['orders'][k] % math.factorial(len(g)), len(g))
        strides, step = [0] * len(g), 1
        for i in order:
            step += case['gaps'][g[i]]
            strides[i] = step
            step *= shape[g[i]]
        strides = [-s if case['signs'][d] else s for s, d in zip(strides, g)]
        low = sum(min(0, (shape[d] - 1) * s) for d, s in zip(g, strides))
        high = sum(max(0, (shape[d] - 1) * s) for d, s in zip(g, strides))
        offset = case['before'][k] - low
        rstrides.append(tuple(strides))
        roffset.append(offset)
        sizes.append(offset + high + 1 + case['after'][k])
    if math.prod(sizes) > 2500:
        ctx.label('large')
        return
    names = ['Strided', 'COO', 'FlatCOO', 'DM', 'Strided']
    if len(sizes) == 2:
        names.append('CSR')
    if len(sizes) == 1:
        names.append('Buffer')
    cls = names[case['inner'] % len(names)]
    full = View.full(sizes)
    bits = max(case['holes'].bit_length(), 1)
    cells = [u if case['holes'] >> p % bits & 1 else 100 + p for p in full.pos]
    data = getattr(storage, cls).fromobject(model.nested(sizes, cells), unspecified=u)
    root = storage.DM(shape, groups, tuple(rstrides), tuple(roffset), data)
    pos = []
    for index in itertools.product(*map(range, shape)):
        rindex = tuple(o + sum(s * index[d] for s, d in zip(ss, g))
                       for o, ss, g in zip(roffset, rstrides, groups))
        pos.append(full.at(rindex))
    view = view0 = View(shape, pos)
    what = f'DM({shape}, {groups}, {rstrides}, {roffset}, {cls} of shape {sizes})'
    ctx.label(cls, f'{len(groups)} groups')
    ctx.nontrivial(len(pos) > 1)
    mapping_content(root, view, cells, u, cls, what, case, ctx)
    for codes in case.get('mutations', []):
        what = mutate(root, view, cells, u, cls in SPARSE, codes, what)
        check_content(data, full, cells, f'{what}: storage') if cls != 'Buffer' else None
        mapping_content(root, view, cells, u, cls, what, case, ctx)
    c = root.copy()
    check_content(c, view0, cells, what + ' copy')
    if case['ops']:
        before = list(cells)
        stored = None
        if cls in SPARSE:
            stored = set(p for p in full.pos if cells[p] != u)
        world = World.of(root, view0, cells, ctx, 'DM', stored, u, what)
        if cls != 'Buffer':
            # elements that do not belong to the array stay as they are
            world.add(Entry(data, cls, full, stored, u, f'{cls} of {what}'))
        for op in case['ops']:
            text = assignment(world, world.entries[0], op, '')
            if text is not None:
                world.check_all(text)
        check_content(c, view0, before, what + ' copy, after assignments')
        ctx.label('assigned')


def mapping_content(root, view, cells, u, cls, what, case, ctx):
    check_content(root, view, cells, what, negative=True)
    need(eq(root.unspecified, u), f'{what}: unspecified value is {root.unspecified!r}')
    s = root
    for k in range(len(case['chain']) + 1):
        if k:
            index, sel = resolve_index(case['chain'][k - 1], view.shape)
            s, view = s[index], view.select(sel)
            what += f' [{index!r}]'
            if not isinstance(view, View):
                need(same(s, cells[view], u), f'{what}: got {s!r}, expected {cells[view]!r}')
                break
            check_content(s, view, cells, what)
        listed = stored_elements(s)
        indices = [i for i, _ in listed]
        need(indices == sorted(set(indices)), f'{what}: elements are listed as {indices}')
        listed = dict(listed)
        for i in view.indices():
            v = cells[view.at(i)]
            need(eq(listed.get(i, u), v), f'{what}: elements give {listed.get(i, u)!r} at {i}, '
                 f'expected {v!r}')
        count = len(view.pos)
        if cls in SPARSE:
            count = sum(cells[p] != u for p in view.pos)
        need(s.size == count, f'{what}: size is {s.size}, {count} elements are stored')
        need(bool(s.is_full()) == (count == len(view.pos)), f'{what}: is_full is {s.is_full()}')
    if isinstance(view, View) and case['to'] is not None:
        to = resolve_format(case['to'], len(view.shape), ALL)
        tview = view if to.name != 'Buffer' else View((len(view.pos),), view.pos)
        check_storage(to.convert(s), to, tview, cells, u, f'{what} -> {to}')
        ctx.label('converted')


HUGE_PROBE = st.lists(st.tuples(st.integers(0, 2**70), st.integers(-2, 2)).map(list), min_size=1,
                      max_size=5)


@st.composite
def huge_mappings(draw):
    rank = draw(st.sampled_from([2, 3, 4, 1, 5]))
    shape = draw(st.lists(SIZE, min_size=rank, max_size=rank))
    return {
        'shape': shape, 'dm': draw(model.DM_CODES), 'inner': draw(st.integers(0, 1)),
        'nested': draw(st.none() | st.integers(0, 3)),
        'factors': draw(st.lists(st.sampled_from([1, 1, -1, 2, -3]), min_size=rank,
                                 max_size=rank)),
        'before': draw(st.lists(st.sampled_from([0, 0, 1, 10**7]), min_size=rank, max_size=rank)),
        'pools': [draw(st.lists(st.integers(0, 2**70), min_size=1, max_size=4)) for _ in shape],
        'stored': draw(model.some(st.tuples(*[st.integers(0, 5)] * rank).map(list),
                                  (2, 5, 8, 14, 1))),
        'chain': draw(HUGE_CHAIN), 'probes': draw(st.lists(HUGE_PROBE, max_size=3))}


def check_huge_mapping(case, ctx):
    """DM with axes of any length over a sparse storage."""
    shape = tuple(case['shape'])
    rank = len(shape)
    groups = model.resolve_mapping(case['dm'][:3] + [0], rank)['groups']
    elements = sorted({tuple(pool[i % len(pool)] % n
                             for i, pool, n in zip(codes, case['pools'], shape))
                       for codes in case['stored']})
    items = [(index, 10 + i) for i, index in enumerate(elements)]
    rstrides, roffset, sizes = [], [], []
    for k, g in enumerate(groups):
        f = case['factors'][k]
        strides = tuple(f * math.prod(shape[d] for d in g[j + 1:]) for j in range(len(g)))
        span = abs(f) * (math.prod(shape[d] for d in g) - 1)
        offset = case['before'][k] + (span if f < 0 else 0)
        rstrides.append(strides)
        roffset.append(offset)
        sizes.append(case['before'][k] + span + 1 + case['before'][-1])
    sizes = tuple(sizes)

    def place(index):
        return tuple(o + sum(s * index[d] for s, d in zip(ss, g))
                     for o, ss, g in zip(roffset, rstrides, groups))

    placed = sorted((place(i), v) for i, v in items)
    inner, inner_groups = sizes, None
    if case['nested'] is not None and len(sizes) > 1:
        # the storage maps its dimensions, too
        at = case['nested'] % (len(sizes) - 1) + 1
        inner_groups = (tuple(range(at)), tuple(range(at, len(sizes))))
        inner = tuple(math.prod(sizes[d] for d in g) for g in inner_groups)
        inner_strides = tuple(tuple(math.prod(sizes[d] for d in g[j + 1:]) for j in range(len(g)))
                              for g in inner_groups)
        placed = sorted((tuple(sum(s * i[d] for s, d in zip(ss, g))
                               for ss, g in zip(inner_strides, inner_groups)), v)
                        for i, v in placed)
    s = sparse(['COO', 'FlatCOO'][case['inner']], inner, placed)
    what = f'{type(s).__name__} of shape {inner}'
    if inner_groups:
        s = storage.DM(sizes, inner_groups, inner_strides, (0,) * len(inner_groups), s)
        what = f'DM({sizes}, {inner_groups}) over {what}'
        ctx.label('nested')
    s = storage.DM(shape, groups, tuple(rstrides), tuple(roffset), s)
    what = f'DM({shape}, {groups}, {rstrides}, {roffset}) over {what}, elements {items}'
    ctx.label(f'{len(groups)} groups', f'rank {rank}')
    known = dict(items)
    for k in range(len(case['chain']) + 1):
        if k:
            if 0 in shape:
                break
            codes = case['chain'][k - 1]
            index = tuple(huge_item(c, n, [i[j] for i in known])
                          for j, (c, n) in enumerate(zip(codes, shape)))
            what += f' [{index!r}]'
            ranges = [range(n)[slice(None) if i is None else i]
                      for n, i in zip(shape, index + (None,) * (len(shape) - len(index)))]
            s = s[index]
            if all(isinstance(r, int) for r in ranges):
                expected = known.get(tuple(ranges))
                need(eq(s, expected), f'{what}: got {s!r}, expected {expected}')
                ctx.label('element')
                return
            known = {tuple(r.index(c) for c, r in zip(i, ranges) if not isinstance(r, int)): v
                     for i, v in known.items()
                     if all(c == r if isinstance(r, int) else c in r
                            for c, r in zip(i, ranges))}
            if any(isinstance(r, int) for r in ranges):
                ctx.label('dropped axis')
            shape = tuple(length(r) for r in ranges if not isinstance(r, int))
            ctx.nontrivial(len(known) > 1)
        need(isinstance(s, storage.DM) and s.shape == shape,
             f'{what}: got {type(s).__name__} of shape {getattr(s, "shape", None)},'
             f' expected DM of shape {shape}')
        need(s.unspecified is None, f'{what}: unspecified value is {s.unspecified!r}')
        if 0 in shape:
            return
        probes = {}
        for index in known:
            probes[index] = None
            for j in range(len(shape)):
                for step in (-1, 1):
                    probes[index[:j] + ((index[j] + step) % shape[j],) + index[j + 1:]] = None
        for probe in case['probes']:
            probes[tuple((probe[j % len(probe)][0] + probe[j % len(probe)][1]) % n
                         for j, n in enumerate(shape))] = None
        for index in probes:
            for spelled in (index, tuple(i - n for i, n in zip(index, shape))):
                got = s[spelled]
                need(eq(got, known.get(index)),
                     f'{what}: element {spelled} is {got!r}, expected {known.get(index)}')


PROPERTIES = {p.id: p for p in [
    Property(
        'F14',
        'Strided arrays with permuted, spaced, negative and zero strides over windows of longer'
        ' sequences; COO, FlatCOO and CSR with generated index sets, index arrays in several'
        ' layouts and windows, and stored elements equal to the unspecified value; contents,'
        ' iteration, size, chains of slices, copies, conversions, assignments. Non-trivial:'
        ' several elements.',
        [Sub('parts', check_parts, part_cases, quick=7000)]),
    Property(
        'F15',
        'COO, FlatCOO and CSR arrays of rank 1-4 with axes of length 1 to 2**63-1 and up to 14'
        ' stored elements; chains of up to 3 indices aimed at the stored elements; iteration,'
        ' size, elements and their neighbours, conversions that do not enumerate the array,'
        ' copies, equality, assignments to stored elements, against a dictionary of elements. Non-trivial: a slice with several'
        ' elements.',
        [Sub('huge', check_huge, huge_cases, quick=6000)]),
    Property(
        'D08',
        'DM constructed with any groups, strides of both signs, spaced or permuted, and offsets,'
        ' over a larger storage of any format, also with axes of lengths up to 2**63-1;'
        ' contents, iteration, size, chains of slices,'
        ' conversions, copies, and assignments with all other elements of the larger storage'
        ' read back. Non-trivial: several elements.',
        [Sub('parts', check_mapping_parts, mapping_parts, quick=6000),
         Sub('huge', check_huge_mapping, huge_mappings, quick=3000)]),
]}
