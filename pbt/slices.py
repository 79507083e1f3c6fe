"""S: slices, index arithmetic and position solving."""
import itertools
import math

from hypothesis import strategies as st

from . import model
from .core import HarnessError, Property, Sub, fail, need
from .model import resolve_index
from .target import slice_tools, storage

reduced, nitems = slice_tools.reduced, slice_tools.nitems


# ------------------------------------------------------------------------- S01

def rlen(r):
    """len(r) for any range."""
    if r.step > 0:
        return max(0, -((r.start - r.stop) // r.step))
    return max(0, -((r.stop - r.start) // -r.step))


def int_slice(value, what):
    need(isinstance(value, slice)
         and all(isinstance(v, int) for v in (value.start, value.stop, value.step)),
         what, 'is', value, 'expected a slice of integers')
    need(value.step != 0, what, 'has step 0')


def check_reduced(case, ctx):
    size = case['size']
    s = slice(*case['s'])
    what = f'size={size} {s}'
    if s.step == 0:
        ctx.label('step 0')
        ctx.nontrivial()
        for f in (reduced, nitems):
            try:
                r = f(s, size)
            except ValueError:
                continue
            fail(f'{what}: step 0 is not rejected, {f.__name__} returns {r!r}')
        return
    expected = range(size)[s]
    count = rlen(expected)
    r = reduced(s, size)
    int_slice(r, f'{what}: the reduced slice')
    got = range(size)[r]
    if rlen(got) != count or (count and (got[0] != expected[0]
                                         or (count > 1 and got.step != expected.step))):
        fail(f'{what}: reduced to {r} that selects {got}, expected {expected}')
    r2 = reduced(r, size)
    need(r2 == r, f'{what}: reduced to {r}, reducing again gives {r2}')
    for label, n in (('nitems(s)', nitems(s, size)), ('nitems(r)', nitems(r, size)),
                     ('nitems(r, reduce=False)', nitems(r, size, reduce=False))):
        need(n == count, f'{what}: {label} is {n}, expected {count}')
    picks = range(count) if count <= 12 else [0, 1, 2, count // 3, count // 2, count - 2, count - 1]
    for i in picks:
        p = (r.start + i * r.step) % size
        need(p == expected.start + i * expected.step,
             f'{what}: position {i} computed from {r} is {p}, expected '
             f'{expected.start + i * expected.step}')
    ctx.label('empty' if not count else 'single' if count == 1 else 'several',
              'negative step' if (s.step or 1) < 0 else 'positive step',
              'huge' if size > 1 << 40 else 'large' if size > 64 else 'small')
    ctx.nontrivial(count > 1 and case['s'] != [None, None, None])


def near(size):
    """Integers near the boundaries of axis."""
    return st.one_of(
        st.none(),
        st.integers(-size - 3, size + 3),
        st.tuples(st.sampled_from([-2, -1, 0, 1, 2]), st.integers(-3, 3)).map(
            lambda t: t[0] * size + t[1]),
        st.integers(-12, 12))


@st.composite
def slice_cases(draw):
    size = draw(st.one_of(st.integers(0, 12), st.integers(0, 200), st.integers(0, 10**6),
                          st.sampled_from([2**31 - 1, 2**31, 2**53 + 1, 2**62, 2**63 - 1])))
    if draw(st.booleans()):
        # selects something
        s = model.region(size, draw(st.integers(0, 2**81)), draw(st.integers(0, 2**81)),
                         draw(st.one_of(st.sampled_from([1, -1, 2, -2, 3, -3, 7]),
                                        st.integers(1, size // 3 + 1),
                                        st.integers(-(size // 3) - 1, -1))),
                         draw(st.integers(0, 7)))
        return {'size': size, 's': [s.start, s.stop, s.step]}
    step = draw(st.one_of(near(size), st.sampled_from([1, -1, 2, -2, 3, -3])))
    return {'size': size, 's': [draw(near(size)), draw(near(size)), step]}


def enum_slices(tier):
    for size in range(0, 7 if tier == 'quick' else 15):
        values = [None] + list(range(-size - 2, size + 3))
        for a, b, c in itertools.product(values, values, values):
            yield {'size': size, 's': [a, b, c]}


# ------------------------------------------------------------------------- S02

STRIDES = st.one_of(st.integers(-9, 9), st.sampled_from([1, 2, 6, 24, -1, -6, 100, 0]))


@st.composite
def layouts(draw):
    rank = draw(st.integers(1, 5))
    big = draw(st.integers(0, 3)) == 3
    top = {1: 20, 2: 7, 3: 5, 4: 3, 5: 3}[rank]
    if big:
        sizes = st.one_of(st.integers(1, 10**6), st.integers(2**31, 2**33))
    else:
        sizes = st.integers(1, top)
    shape = draw(st.lists(sizes, min_size=rank, max_size=rank))
    if draw(st.integers(0, 15)) == 15:
        shape[draw(st.integers(0, rank - 1))] = 0
    if draw(st.booleans()):
        strides = [math.prod(shape[i + 1:]) for i in range(rank)]
    else:
        strides = draw(st.lists(STRIDES, min_size=rank, max_size=rank))
    items = model.index_items
    if big:
        items = st.one_of(
            items, st.tuples(st.just('i'), st.integers(0, 2**35)).map(list),
            st.tuples(st.just('r'), st.integers(0, 2**33), st.integers(0, 2**33),
                      st.sampled_from([1, -1, 3, -7, 10**5]), st.integers(0, 7)).map(list),
            st.tuples(st.just('s'), st.one_of(st.none(), st.integers(-2**34, 2**34)),
                      st.one_of(st.none(), st.integers(-2**34, 2**34)),
                      st.sampled_from([None, 1, -1, 3, -5, 1000, -77777])).map(list))
    chain = draw(model.chains(items))
    return {'shape': shape, 'strides': strides, 'offset': draw(st.integers(-5, 30)),
            'chain': chain}


def tuple_of_ints(value, n, what):
    need(isinstance(value, tuple) and len(value) == n
         and all(isinstance(v, int) for v in value),
         what, 'is', value, f'expected a tuple of {n} integers')


def probe(counts):
    """Element indices of an array with given shape, all if few."""
    if math.prod(counts) <= 300:
        return itertools.product(*map(range, counts))
    picks = [sorted({0, min(1, n - 1), n // 2, n - 1}) for n in counts]
    return itertools.islice(itertools.product(*picks), 300)


def positions_agree(ranges, strides0, offset0, shape, strides, offset, what):
    """The strided layout addresses the elements that are selected by ranges of
    the original layout.  ranges contain range or int per original axis.
    """
    counts = [len(r) if rlen(r) < 2**62 else rlen(r) for r in ranges if isinstance(r, range)]
    need(shape == tuple(counts), f'{what}: new shape is {shape}, expected {tuple(counts)}')
    if 0 in counts:
        return 0
    n = 0
    for j in probe(counts):
        it = iter(j)
        expected = offset0 + sum(
            s * (r.start + next(it) * r.step if isinstance(r, range) else r)
            for s, r in zip(strides0, ranges))
        got = offset + sum(a * b for a, b in zip(strides, j))
        need(got == expected,
             f'{what}: element {j} is at {got}, expected {expected}')
        n += 1
    return n


def compose(ranges, items):
    """Index the axes of ranges (that are range instances) with items."""
    items = list(items)
    result = []
    for r in ranges:
        if isinstance(r, range):
            item = items.pop(0) if items else None
            r = r if item is None else r[item]
        result.append(r)
    return result


def check_strided(case, ctx):
    strides0, offset0 = tuple(case['strides']), case['offset']
    shape, strides, offset = tuple(case['shape']), strides0, offset0
    ranges = [range(n) for n in shape]
    depth = 0
    for k, code in enumerate(case['chain']):
        if not shape:
            break
        index, items = resolve_index(code, shape)
        what = f'{case["shape"]}/{case["strides"]}/{offset0} index number {k} {index!r} of {shape}'
        norm = slice_tools.normalize_index(index, shape)
        need(isinstance(norm, tuple) and len(norm) == len(shape),
             f'{what}: normalized to {norm!r}')
        before = ranges
        ranges = compose(ranges, items)
        new_shape, new_strides, new_offset = slice_tools.index_strided(
            norm, shape, strides, offset)
        rank = sum(isinstance(r, range) for r in ranges)
        for v in (new_shape, new_strides):
            tuple_of_ints(v, rank, what)
        n = positions_agree(ranges, strides0, offset0, new_shape, new_strides, new_offset, what)
        # without offset
        s1, t1, o1 = slice_tools.index_strided(norm, shape, strides)
        need((s1, t1) == (new_shape, new_strides), f'{what}: offset matters')
        if n:
            need(o1 + offset == new_offset, f'{what}: offsets {o1} + {offset} and {new_offset}')
        if hasattr(slice_tools, 'shape_strided'):
            need(slice_tools.shape_strided(norm, shape) == new_shape,
                 f'{what}: shape_strided gives {slice_tools.shape_strided(norm, shape)}')
        if hasattr(slice_tools, 'apply_slices'):
            full = items + (None,) * (len(shape) - len(items))
            s2, t2, o2 = slice_tools.apply_slices(full, shape, strides)
            tuple_of_ints(t2, rank, what + ' apply_slices')
            positions_agree(compose([range(m) for m in shape], items), strides, 0, s2, t2, o2,
                            what + ' apply_slices')
        if before != ranges:
            depth += 1
        if n > 1 and depth > 1:
            ctx.label('chained')
        ctx.nontrivial(n > 1 and depth)
        ctx.label('elements' if n else 'empty')
        shape, strides, offset = new_shape, new_strides, new_offset
    if max(case['shape']) > 10**6:
        ctx.label('huge axis')


# ------------------------------------------------------------------------- S03

@st.composite
def solve_cases(draw):
    kind = draw(st.sampled_from(['slice', 'slice', 'columns', 'any', 'any', 'scaled', 'huge']))
    if kind == 'huge':
        rank = draw(st.integers(1, 4))
        sizes = model.weighted((1, st.integers(1, 9)), (2, st.integers(10**3, 10**6)),
                               (2, st.integers(2**31 - 2, 2**33)), (1, st.integers(10**15, 2**63 - 1)))
        shape = draw(st.lists(sizes, min_size=rank, max_size=rank))
        # each axis steps over all of the following ones
        order = draw(st.permutations(range(rank)))
        strides, step = [0] * rank, draw(st.sampled_from([1, 1, 1, 2, 3]))
        for axis in order:
            strides[axis] = step * draw(st.sampled_from([1, -1]))
            step = step * shape[axis] + draw(st.sampled_from([0, 0, 0, 1, 5])) * step
        picks = draw(st.lists(st.lists(
            st.one_of(st.integers(0, 3), st.integers(-3, -1), st.integers(0, 2**66)),
            min_size=rank, max_size=rank), min_size=1, max_size=8))
        return {'kind': kind, 'shape': shape, 'strides': strides, 'picks': picks,
                'order': list(order)}
    if kind == 'slice':
        shape = draw(model.shapes(cap=80))
        chain = draw(model.chains(model.nonint_items, (1, 2, 3, 0)))
        return {'kind': kind, 'shape': shape, 'chain': chain}
    rank = draw(st.integers(0 if kind == 'any' else 1, 4))
    top = {0: 1, 1: 12, 2: 7, 3: 4, 4: 3}[rank]
    shape = draw(st.lists(st.integers(1, top), min_size=rank, max_size=rank))
    if kind == 'columns':
        strides = [math.prod(shape[:i]) for i in range(rank)]
        order = draw(st.permutations(range(rank)))
        strides = [strides[i] for i in order]
        shape = [shape[i] for i in order]
        sign = draw(st.lists(st.sampled_from([1, -1]), min_size=rank, max_size=rank))
        strides = [a * b for a, b in zip(sign, strides)]
    elif kind == 'scaled':
        k = draw(st.sampled_from([2, 3, -2, 6]))
        strides = [k * math.prod(shape[i + 1:]) for i in range(rank)]
    else:
        strides = draw(st.lists(st.integers(1, 15).flatmap(
            lambda v: st.sampled_from([v, -v])), min_size=rank, max_size=rank))
    if rank and draw(st.integers(0, 15)) == 15:
        shape[draw(st.integers(0, rank - 1))] = 0
    return {'kind': kind, 'shape': shape, 'strides': strides}


def check_solve(case, ctx):
    shape = tuple(case['shape'])
    if case['kind'] == 'slice':
        strides = tuple(math.prod(shape[i + 1:]) for i in range(len(shape)))
        for code in case['chain']:
            # axes of length 1 may get stride 0 when steps are reduced by size 0
            index, items = model.resolve_nonelement(code, shape)
            norm = slice_tools.normalize_index(index, shape)
            shape, strides, _ = slice_tools.index_strided(norm, shape, strides)
    else:
        strides = tuple(case['strides'])
    if 0 in strides and 0 not in shape:
        ctx.label('zero stride')
        return
    if case['kind'] == 'huge':
        check_solve_huge(case, ctx, shape, strides)
        return
    where = {}
    for index in itertools.product(*map(range, shape)):
        where.setdefault(sum(a * b for a, b in zip(index, strides)), []).append(index)
    unique = all(len(v) == 1 for v in where.values())
    lo, hi = min(where, default=0), max(where, default=0)
    span = range(lo - 3, hi + 4)
    if len(span) > 220:
        near = [p for q in list(where)[::max(1, len(where) // 40)] for p in (q - 1, q, q + 1)]
        span = sorted(set(near + [lo - 1, hi + 1]))
    data = solver_data(strides, shape)
    what = f'shape={shape} strides={strides}'
    for pos in span:
        got = slice_tools.solve_index(pos, shape, strides)
        got2 = slice_tools.solve_index(pos, shape, strides, data=data)
        need(got == got2, f'{what} pos={pos}: {got} but {got2} with precomputed data')
        if pos not in where:
            need(got is None, f'{what} pos={pos}: got {got}, no index is there')
        else:
            need(got is not None, f'{what} pos={pos}: no result, expected {where[pos]}')
            need(tuple(got) in where[pos], f'{what} pos={pos}: got {got}, expected {where[pos]}')
    ctx.label(case['kind'], 'unique' if unique else 'ambiguous', f'rank {len(shape)}',
              'empty' if 0 in shape else 'nonempty')
    ctx.nontrivial(len(where) > 2 and len(shape) > 1)


def solver_data(strides, shape):
    make = getattr(slice_tools, 'get_solve_index_data', None)
    return make(strides, shape=shape) if make else None


def check_solve_huge(case, ctx, shape, strides):
    """Layouts in which each axis steps over the following ones."""
    data = solver_data(strides, shape)
    what = f'shape={shape} strides={strides}'
    # with reversed axes counted from their other end
    low = sum((n - 1) * s for n, s in zip(shape, strides) if s < 0)

    def decode(pos):
        rest, index = pos - low, [0] * len(shape)
        for axis in case['order'][::-1]:
            i, rest = divmod(rest, abs(strides[axis]))
            if not 0 <= i < shape[axis]:
                return None
            index[axis] = i if strides[axis] > 0 else shape[axis] - 1 - i
        return tuple(index) if rest == 0 else None

    for pick in case['picks']:
        index = tuple(i % n for i, n in zip(pick, shape))
        pos = sum(a * b for a, b in zip(index, strides))
        for p in (pos, pos + 1, pos - 1, pos + strides[pick[0] % len(shape)]):
            expected = decode(p)
            if p == pos and expected != index:
                raise HarnessError(f'{what}: {index} is at {pos}, decoded to {expected}')
            got = slice_tools.solve_index(p, shape, strides)
            need(got == expected, f'{what} pos={p}: got {got}, expected {expected}')
            got = slice_tools.solve_index(p, shape, strides, data=data)
            need(got == expected,
                 f'{what} pos={p}: got {got} with precomputed data, expected {expected}')
    ctx.label('huge', f'rank {len(shape)}')
    ctx.nontrivial(len(shape) > 1)


@st.composite
def get_index_cases(draw):
    shape = draw(model.shapes(cap=40, zero=False))
    return {'shape': shape, 'code': draw(model.index_codes(items=model.nonint_items))}


def check_get_index(case, ctx):
    """The helpers of storage that relate array and slice indices."""
    shape = tuple(case['shape'])
    strides = tuple(math.prod(shape[i + 1:]) for i in range(len(shape)))
    index, items = model.resolve_nonelement(case['code'], shape)
    view = model.View.full(shape).select(items)
    norm = slice_tools.normalize_index(index, shape)
    sshape, sstrides, soffset = slice_tools.index_strided(norm, shape, strides)
    full = model.View.full(shape)
    back = {}
    for sindex in view.indices():
        back[view.at(sindex)] = sindex
    what = f'shape={shape} index={index!r}'
    if hasattr(storage, 'get_position'):
        for i in full.indices():
            need(storage.get_position(i, shape, strides) == full.at(i), what, 'get_position', i)
    if hasattr(storage, 'get_index'):
        for i in full.indices():
            got = storage.get_index(full.at(i), shape, strides)
            need(got == i, f'{what}: get_index({full.at(i)}) is {got}, expected {i}')
    if 0 in sshape:
        ctx.label('empty')
    elif hasattr(storage, 'get_slice_index') and hasattr(storage, 'get_index_slice'):
        for i in full.indices():
            got = storage.get_slice_index(i, shape, strides, sshape, sstrides, soffset)
            expected = back.get(full.at(i))
            need(got == expected, f'{what}: get_slice_index({i}) is {got}, expected {expected}')
        for sindex in view.indices():
            got = storage.get_index_slice(sindex, shape, strides, sshape, sstrides, soffset)
            need(full.at(got) == view.at(sindex),
                 f'{what}: get_index_slice({sindex}) is {got}')
    ctx.nontrivial(1 < len(view.pos) < len(full.pos) or list(view.pos) != list(full.pos))


# ------------------------------------------------------------------------- S04

COEFF = st.one_of(st.integers(-12, 12), st.sampled_from([1, -1, 2, 6, 12, 60, -30, 210, 1024]),
                  st.integers(-10**6, 10**6), st.integers(-2**70, 2**70)).map(lambda v: v or 1)


@st.composite
def diophantine_cases(draw):
    n = draw(st.sampled_from([2, 3, 1, 2, 3, 4, 5, 6]))
    a = draw(st.lists(COEFF, min_size=n, max_size=n))
    if draw(st.integers(0, 2)) == 2:
        k = draw(st.sampled_from([2, 3, 4, 6, -5, 10]))
        a = [v * k for v in a]
    c = draw(st.one_of(st.integers(-50, 50), st.integers(-2**72, 2**72), st.none()))
    if c is None:
        x = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
        c = sum(p * q for p, q in zip(a, x))
    return {'a': a, 'c': c}


def det(m):
    """Determinant of integer matrix (Bareiss)."""
    m = [list(row) for row in m]
    n, sign, prev = len(m), 1, 1
    for k in range(n - 1):
        if m[k][k] == 0:
            for i in range(k + 1, n):
                if m[i][k]:
                    m[k], m[i] = m[i], m[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) // prev
        prev = m[k][k]
    return sign * m[-1][-1] if n else 1


def check_diophantine(case, ctx):
    a, c = tuple(case['a']), case['c']
    g = math.gcd(*a)
    what = f'a={a} c={c}'
    x0, zs = slice_tools.diophantine(a, c)
    if c % g:
        need(x0 is None, f'{what}: no solution exists, got {x0}')
        ctx.label('no solution')
        ctx.nontrivial(len(a) > 1)
        return
    need(x0 is not None, f'{what}: solutions exist, got none')
    tuple_of_ints(tuple(x0), len(a), f'{what}: particular solution')
    need(sum(p * q for p, q in zip(a, x0)) == c, f'{what}: {x0} is not a solution')
    zs = [tuple(z) for z in zs]
    need(len(zs) == len(a) - 1, f'{what}: expected {len(a) - 1} basis vectors, got {zs}')
    for z in zs:
        tuple_of_ints(z, len(a), f'{what}: basis vector')
        need(sum(p * q for p, q in zip(a, z)) == 0,
             f'{what}: adding {z} to a solution does not give a solution')
    # The basis spans all integer solutions iff its maximal minors are +-a[i]/g.
    for i in range(len(a)):
        minor = det([z[:i] + z[i + 1:] for z in zs])
        need(abs(minor) == abs(a[i]) // g,
             f'{what}: the integer combinations of {zs} do not reach all solutions '
             f'(minor {i} is {minor}, expected +-{abs(a[i]) // g})')
    ctx.label(f'n={len(a)}', 'gcd 1' if g == 1 else 'gcd > 1',
              'huge' if max(map(abs, a)) > 10**6 else 'small')
    ctx.nontrivial(len(a) > 1)


@st.composite
def extgcd_cases(draw):
    return {'a': draw(COEFF), 'b': draw(COEFF)}


def check_extgcd(case, ctx):
    a, b = case['a'], case['b']
    if not hasattr(slice_tools, 'extgcd'):
        return
    g, x, y = slice_tools.extgcd(a, b)
    need(abs(g) == math.gcd(a, b), f'extgcd({a}, {b}): gcd is {g}, expected {math.gcd(a, b)}')
    need(a * x + b * y == g, f'extgcd({a}, {b}): {a} * {x} + {b} * {y} != {g}')
    ctx.nontrivial(g not in (a, b, -a, -b))


def enum_diophantine(tier):
    top = 5 if tier == 'quick' else 9
    values = [v for v in range(-top, top + 1) if v]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        if n == 4:
            values = [v for v in range(-4, 5) if v]
        for a in itertools.product(values, repeat=n):
            for c in (0, 1, 6) if n > 2 else range(-6, 7):
                yield {'a': list(a), 'c': c}


PROPERTIES = {
    'S01': Property(
        'S01',
        'Slices start/stop/step (None, in range, out of range, near multiples of the length, huge)'
        ' x lengths 0..2**63-1, against range(n)[slice]; all slices with |values| <= n+2 for n <= 6'
        ' (thorough 14). Non-trivial: selects several items and is not the full slice, or step 0.',
        [Sub('slices', check_reduced, slice_cases, quick=24000, enum=enum_slices)]),
    'S02': Property(
        'S02',
        'Layouts (rank 1-5, axis lengths 0..2**33, arbitrary or contiguous strides, offset) x'
        ' chains of 1-4 indices; positions of all (large arrays: corner and middle) elements'
        ' against composed ranges. Non-trivial: more than one element is selected by an index'
        ' that restricts or reorders some axis.',
        [Sub('chains', check_strided, layouts, quick=16000)]),
    'S03': Property(
        'S03',
        'Layouts from slice chains, column-major and permuted, scaled and arbitrary non-zero'
        ' strides; every position in and around the range of positions against a brute force'
        ' table. Non-trivial: rank >= 2 with more than two positions.',
        [Sub('solve', check_solve, solve_cases, quick=5000),
         Sub('get_index', check_get_index, get_index_cases, quick=2500)],
        ['layouts with a zero stride are outside of the claim']),
    'S04': Property(
        'S04',
        'Coefficient tuples (1-6 coefficients up to 2**70, common factors) and right-hand sides;'
        ' gcd criterion, a.x0=c, a.z=0, and completeness by unimodularity of the basis minors.'
        ' Non-trivial: at least two coefficients.',
        [Sub('diophantine', check_diophantine, diophantine_cases, quick=16000,
             enum=enum_diophantine),
         Sub('extgcd', check_extgcd, extgcd_cases, quick=6000)]),
}
