"""D: dimensionality reduction and the DM format."""
import itertools
import math

from hypothesis import strategies as st

from . import basics, model
from .build import (ALL, FORMATS, PLAIN, SPARSE, Format, check_canonical, check_storage,
                    resolve_format, stored_elements)
from .core import Property, Sub, fail, need
from .formats import (AGAIN, ASSIGN, CONVERT, COPY, SLICE, World, assignment, case_of,
                      check_assignments, check_sharing, check_slicing, sharing)
from .model import (DM_CODES, Array, View, arrays, check_buffer, check_content, eq,
                    mutate, resolve_index, resolve_mapping, resolve_nonelement, same)
from .target import slice_tools, storage  # noqa: F401

prototype = basics.module


# ------------------------------------------------------------------------- D01

def check_reduction(case, ctx):
    shape = tuple(case['shape'])
    rank = len(shape)
    m = resolve_mapping(case['dm'][:3] + [0], rank)
    perm, cuts, groups = m['dimensions'], m['partitioning'], m['groups']
    what = f'shape={shape} dimensions={perm} partitioning={cuts}'
    view = View.full(shape)
    rshape = tuple(math.prod(shape[d] for d in g) for g in groups)

    def documented(index):
        """The stride formula of the documents."""
        result = []
        for g in groups:
            r = 0
            for k, d in enumerate(g):
                r += math.prod(shape[e] for e in g[k + 1:]) * index[d]
            result.append(r)
        return tuple(result)

    meta = prototype.create_reduction_metadata(shape, perm, cuts)
    need(tuple(meta['reduction_shape']) == rshape,
         f'{what}: reduced shape is {meta["reduction_shape"]}, expected {rshape}')
    need(meta['reduction_dimensionality'] == len(groups),
         f'{what}: reduced dimensionality is {meta["reduction_dimensionality"]}')
    seen = {}
    for index in view.indices():
        expected = documented(index)
        got = tuple(prototype.reduction(meta, index))
        need(got == expected, f'{what}: {index} is reduced to {got}, expected {expected}')
        need(got not in seen, f'{what}: {index} and {seen.get(got)} are both reduced to {got}')
        seen[got] = index
    for rindex in itertools.product(*map(range, rshape)):
        need(rindex in seen, f'{what}: no index is reduced to {rindex}')
        got = tuple(prototype.promotion(meta, rindex))
        need(got == seen[rindex], f'{what}: {rindex} is promoted to {got}, expected {seen[rindex]}')
    ctx.label(f'rank {rank}', f'{len(groups)} groups')
    ctx.nontrivial(len(view.pos) > 1 and (len(groups) < rank or perm != tuple(range(rank))))

    if not all(hasattr(storage, name) for name in (
            'make_reduction', 'reduce_index', 'promote_index')):
        ctx.label('storage helpers are missing')
        return
    srshape, rshapes, rstrides = storage.make_reduction(shape, groups)
    need(tuple(srshape) == rshape, f'{what}: storage reduced shape is {srshape}')
    offset = tuple(case['offset'][k % len(case['offset'])] for k in range(len(groups)))
    zero = (0,) * len(groups)
    for rindex, index in seen.items():
        got = tuple(storage.reduce_index(rshapes, groups, rstrides, zero, index))
        need(got == rindex, f'{what}: storage reduces {index} to {got}, expected {rindex}')
        moved = tuple(a + b for a, b in zip(rindex, offset))
        got = tuple(storage.reduce_index(rshapes, groups, rstrides, offset, index))
        need(got == moved, f'{what} offset={offset}: storage reduces {index} to {got}, '
             f'expected {moved}')
        for off, r in ((zero, rindex), (offset, moved)):
            got = tuple(storage.promote_index(rshapes, groups, rstrides, off, r))
            need(got == index, f'{what} offset={off}: storage promotes {r} to {got}, '
                 f'expected {index}')
            if len(groups) == 1:
                got = tuple(storage.promote_index(rshapes, groups, rstrides, off, r[0]))
                need(got == index, f'{what} offset={off}: storage promotes {r[0]} to {got}, '
                     f'expected {index}')


def enum_reduction(tier):
    shapes = [(2,), (2, 3), (2, 3, 4), (1, 2, 3), (2, 2, 2, 3)]
    if tier != 'quick':
        shapes += [(3, 1, 2), (4, 3, 2), (3, 2, 1, 4), (2, 3, 2, 1, 3), (1, 1, 1)]
    for shape in shapes:
        n = len(shape)
        for p in range(math.factorial(n)):
            for c in range(1 << (n - 1)):
                yield {'shape': list(shape), 'dm': [p, c, 0, 0], 'offset': [3, 7, 1]}


# ------------------------------------------------------------------------- D02

def check_layout(case, ctx):
    array = Array(case['array'])
    rank, items, u, view = len(array.shape), array.items, array.u, array.view
    mapping = resolve_mapping(case['dm'], rank)
    fmt = Format('DM', case['via'], mapping)
    source = array.nested()
    what = f'{fmt} of shape {array.shape}'
    if case['src'] is not None:
        src = resolve_format(case['src'], rank, PLAIN + ['DM'] + (['Buffer'] if rank == 1 else []))
        source = src.build(source, **array.kwargs())
        what += f' from {src}'
        for code in case['chain']:
            index, sel = resolve_nonelement(code, view.shape)
            if src.name == 'Buffer':
                break
            source, view = source[index], view.select(sel)
            what += f' [{index!r}]'
            ctx.label('from slice')
        mapping = resolve_mapping(case['dm'], len(view.shape))
        fmt = Format('DM', case['via'], mapping)
        s = fmt.convert(source)
        ctx.label('from storage')
    else:
        s = fmt.build(source, **array.kwargs())
    what += f' as {fmt}'
    for codes in [[]] + case.get('mutations', []):
        what = mutate(s, view, items, u, fmt.sparse, codes, what)
        layout(s, fmt, view, items, u, mapping, what)
        if codes:
            ctx.label('mutated')
    ctx.label(mapping['cls'], f'rank {len(view.shape)}', f'{mapping["m"]} groups',
              'empty' if 0 in view.shape else 'nonempty')
    ctx.nontrivial(len(view.pos) > 1)


def layout(s, fmt, view, items, u, mapping, what):
    check_storage(s, fmt, view, items, u, what, negative=True)
    rview = view.transpose_reduce(mapping['groups'])
    data = s.data
    cls = mapping['cls']
    need(type(data).__name__ == cls, f'{what}: storage array is', type(data).__name__)
    need(tuple(data.shape) == rview.shape,
         f'{what}: shape of the storage array is {data.shape}, expected {rview.shape}')
    need(eq(data.unspecified, u), f'{what}: unspecified value is {data.unspecified!r}')
    if cls == 'Buffer':
        check_buffer(data, [items[p] for p in rview.pos], what + ': data')
    else:
        check_content(data, rview, items, what + ': data')
    if cls in SPARSE:
        check_canonical(data, rview, items, u, what + ': data')
    if 0 not in rview.shape[:-1]:
        expected = getattr(storage, cls).fromobject(
            model.nested(rview.shape, [items[p] for p in rview.pos]), unspecified=u)
        need(data == expected, f'{what}: the storage array is {data!r}, {cls} of the permuted and '
             f'reduced array is {expected!r}')


# ------------------------------------------------------------------------- D06

@st.composite
def nested_cases(draw):
    depth = draw(st.sampled_from([2, 2, 3]))
    return {
        'array': draw(arrays(cap=30, zero=False)),
        'levels': draw(st.lists(DM_CODES, min_size=depth, max_size=depth)),
        'chain': draw(model.chains(lengths=(1, 2, 3, 2))),
        'to': draw(st.one_of(st.none(), FORMATS)),
        'ops': draw(model.some(ASSIGN, (0, 1, 2))), 'mutations': draw(model.MUTATIONS)}


def build_nested(array, levels):
    """DM over DM over ... innermost storage.  Return storage and its name."""
    view, above, names = array.view, [], []
    for k, code in enumerate(levels):
        last = k == len(levels) - 1
        m = resolve_mapping(code[:3] + [0], len(view.shape))
        groups = m['groups']
        strides = tuple(tuple(math.prod(view.shape[e] for e in g[i + 1:]) for i in range(len(g)))
                        for g in groups)
        above.append((view.shape, groups, strides, (0,) * len(groups)))
        names.append(f'DM{groups}')
        view = view.transpose_reduce(groups)
        if last:
            cls = m['cls']
    s = getattr(storage, cls).fromobject(
        model.nested(view.shape, [array.items[p] for p in view.pos]), unspecified=array.u)
    for args in reversed(above):
        s = storage.DM(*args, s)
    return s, cls, ' over '.join(names + [cls])


def check_nested(case, ctx):
    array = Array(case['array'])
    items, u = array.items, array.u
    root, cls, name = build_nested(array, case['levels'])
    ctx.label(cls, f'{len(case["levels"])} levels')
    what = f'{name} of shape {array.shape}'
    nested_content(root, array.view, items, u, cls, what, case, ctx)
    for codes in case.get('mutations', []):
        what = mutate(root, array.view, items, u, cls in SPARSE, codes, what)
        nested_content(root, array.view, items, u, cls, what, case, ctx)
    # assignments
    if case['ops']:
        stored = None
        if cls in SPARSE:
            stored = set(p for p in array.view.pos if items[p] != u)
        world = World.of(root, array.view, items, ctx, 'DM', stored, u, name)
        entry = world.entries[0]
        for op in case['ops']:
            text = assignment(world, entry, op, '')
            if text is not None:
                world.check_all(text)


HISTORY = model.weighted((3, SLICE), (3, ASSIGN), (1, COPY), (1, CONVERT), (1, AGAIN))


@st.composite
def nested_histories(draw):
    depth = draw(st.sampled_from([2, 2, 3]))
    return {'array': draw(arrays(cap=20, zero=False)),
            'levels': draw(st.lists(DM_CODES, min_size=depth, max_size=depth)),
            'ops': draw(model.some(HISTORY, (2, 3, 5, 7)))}


def check_nested_histories(case, ctx):
    """Slices of nested mappings share, copies and conversions do not."""
    array = Array(case['array'])
    items, u = array.items, array.u
    root, cls, name = build_nested(array, case['levels'])
    ctx.label(cls, f'{len(case["levels"])} levels')
    stored = None
    if cls in SPARSE:
        stored = set(p for p in array.view.pos if items[p] != u)
    groups = resolve_mapping(case['levels'][0][:3] + [0], len(array.shape))['groups']
    world = World.of(root, array.view, items, ctx, 'DM', stored, u, name, groups)
    sharing(world, case['ops'], ctx, ['Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer', 'DM'])


def nested_content(root, view, items, u, cls, what, case, ctx):
    check_content(root, view, items, what, negative=True)
    need(eq(root.unspecified, u), f'{what}: unspecified value is {root.unspecified!r}')
    s, depth = root, 0
    for code in case['chain']:
        index, sel = resolve_index(code, view.shape)
        s, view = s[index], view.select(sel)
        what += f' [{index!r}]'
        if not isinstance(view, View):
            need(same(s, items[view], u), f'{what}: got {s!r}, expected {items[view]!r}')
            break
        depth += 1
        check_content(s, view, items, what)
    if isinstance(view, View):
        listed = stored_elements(s)
        indices = [i for i, _ in listed]
        need(indices == sorted(set(indices)), f'{what}: elements are listed as {indices}')
        listed = dict(listed)
        for i in view.indices():
            v = items[view.at(i)]
            need(eq(listed.get(i, u), v), f'{what}: elements give {listed.get(i, u)!r} at {i}, '
                 f'expected {v!r}')
        count = len(view.pos)
        if cls in SPARSE:
            count = sum(items[p] != u for p in view.pos)
        need(s.size == count, f'{what}: size is {s.size}, {count} elements are stored')
        need(bool(s.is_full()) == (count == len(view.pos)), f'{what}: is_full is {s.is_full()}')
        if case['to'] is not None:
            to = resolve_format(case['to'], len(view.shape), ALL)
            t = to.convert(s)
            tview = view if to.name != 'Buffer' else View((len(view.pos),), view.pos)
            check_storage(t, to, tview, items, u, f'{what} -> {to}')
            ctx.label('converted')
        ctx.nontrivial(len(view.pos) > 1)


# ------------------------------------------------------------------------- D07

@st.composite
def bad_mappings(draw):
    rank = draw(st.integers(1, 5))
    size = draw(st.sampled_from([st.integers(1, 3), st.integers(1, 3), st.integers(0, 2)]))
    shape = draw(st.lists(size, min_size=rank, max_size=rank))
    kind = draw(st.sampled_from(['unsorted', 'range', 'dimensions', 'groups', 'class',
                                 'ctor', 'valid']))
    return {'shape': shape, 'kind': kind, 'k': draw(st.integers(0, 1000)),
            'dm': draw(DM_CODES), 'via': draw(st.booleans()),
            'cls': draw(st.sampled_from(['Strided', 'COO', 'FlatCOO', 'DM']))}


def check_rejected(case, ctx):
    shape, kind, k = tuple(case['shape']), case['kind'], case['k']
    rank = len(shape)
    n = math.prod(shape)
    seq = model.nested(shape, range(n))
    strided = storage.Strided(shape, storage.make_strides(shape),
                              storage.Buffer(n, 0, list(range(n))))
    m = resolve_mapping(case['dm'][:3] + [0], rank)
    options = dict(dimensions=m['dimensions'], partitioning=m['partitioning'],
                   storage_class=getattr(storage, case['cls']))
    if kind == 'unsorted':
        if rank < 3:
            kind = 'range'
        else:
            cuts = [c for c in range(1, rank) if c in m['partitioning'] or c in (1, rank - 1)]
            # all permutations but the sorted one
            order = model.nth_permutation(1 + k % (math.factorial(len(cuts)) - 1), len(cuts))
            options['partitioning'] = tuple(cuts[i] for i in order)
    if kind == 'range':
        bad = [0, -1, rank, rank + 1, -rank, 17][k % 6]
        cuts = list(m['partitioning'])
        if len(cuts) >= rank - 1 and cuts:
            cuts.pop(k // 6 % len(cuts))
        cuts = tuple(sorted(cuts + [bad]))
        options['partitioning'] = cuts[0] if len(cuts) == 1 and k & 64 else cuts
    if kind == 'dimensions':
        dims = list(m['dimensions'])
        i = k % rank
        if k % 5 == 0:
            # too many or too few
            ctx.label('wrong number')
            if k & 32:
                dims.pop(i)
            else:
                dims.insert([i, rank][k & 64 > 0], [0, rank - 1, rank, -1][k // 128 % 4])
        elif rank > 1 and k & 32:
            dims[i] = dims[(i + 1) % rank]      # repeated
        else:
            dims[i] = [rank, rank + 2, -rank - 1][k // 64 % 3]
        options['dimensions'] = tuple(dims)
    if kind == 'groups':
        # more groups than dimensions
        cuts = sorted([1 + (k // (j + 1)) % max(rank - 1, 1) for j in range(rank)])
        options['partitioning'] = tuple(cuts)
    if kind == 'class':
        if m['m'] == 1:
            options['storage_class'] = storage.CSR
        elif m['m'] == 2:
            options['storage_class'] = storage.Buffer
        else:
            options['storage_class'] = [storage.CSR, storage.Buffer][k % 2]
    if kind == 'ctor':
        good = storage.DM.fromobject(strided, **options)
        args = list(getattr(good, a) for a in ('shape', 'rdimensions', 'rstrides', 'roffset'))
        rdims = [list(g) for g in args[1]]
        flat = [(a, b) for a, g in enumerate(rdims) for b in range(len(g))]
        a, b = flat[k % len(flat)]
        if k % 3 == 0:
            # one more, that is in the same group, in another one, or nowhere
            rdims[a].append(k // 7 % (rank + 1))
            args[2] = tuple(t + (1,) * (j == a) for j, t in enumerate(args[2]))
            ctx.label('one more')
        elif rank > 1 and k & 256:
            rdims[a][b] = (rdims[a][b] + 1) % rank
        else:
            rdims[a][b] = rank
        args[1] = tuple(map(tuple, rdims))
        what = f'DM{tuple(args)}'
        try:
            s = storage.DM(*args, good.data)
        except Exception:
            pass
        else:
            fail(f'{what}: accepted and gives {s!r}')
        ctx.label(kind)
        ctx.nontrivial()
        return
    what = f'shape={shape} {options}'
    try:
        if case['via']:
            s = strided.as_DM(**options)
        elif n == 0:
            s = storage.DM.fromobject(strided, **options)
        else:
            s = storage.DM.fromobject(seq, **options)
    except Exception as exc:
        need(kind != 'valid', f'{what}: rejected with {exc!r}')
    else:
        need(kind == 'valid', f'{what}: accepted and gives {s!r}')
        check_content(s, View.full(shape), list(range(n)), what)
    ctx.label(kind)
    ctx.nontrivial(kind != 'valid')


PROPERTIES = {p.id: p for p in [
    Property(
        'D01',
        'Shapes (rank 1-5) x permutations x partitionings x offsets; every index reduced and'
        ' every reduced index promoted, against the documented stride formula, by gcs_basics and'
        ' by gcs.storage; all permutations and partitionings of some shapes. Non-trivial: several'
        ' elements, and axes are swapped or grouped.',
        [Sub('reduction', check_reduction,
             case_of(shape=model.shapes(cap=72), dm=DM_CODES,
                     offset=st.lists(st.integers(-20, 50), min_size=1, max_size=4)),
             quick=8000, enum=enum_reduction)]),
    Property(
        'D02',
        'Arrays x (dimensions, partitioning, storage class; defaults) x source (nested sequence,'
        ' storage of any format, slice of one); every element, and the storage array against the'
        ' permuted and reduced array. Non-trivial: several elements.',
        [Sub('layout', check_layout,
             case_of(array=arrays(cap=48), dm=DM_CODES, via=st.booleans(),
                     src=st.one_of(st.none(), FORMATS),
                     chain=model.chains(model.nonint_items, (0, 1, 2)),
                     mutations=model.MUTATIONS),
             quick=7000)]),
    Property(
        'D03',
        'Arrays x DM configurations x chains of 1-4 indices, content of every intermediate'
        ' result, then a conversion. Non-trivial: the result has several elements and differs'
        ' from the array, or an element of a slice is read.',
        [Sub('slicing', check_slicing(['DM']),
             case_of(array=arrays(cap=48), fmt=FORMATS, chain=model.chains(),
                     to=st.one_of(st.none(), FORMATS), mutations=model.MUTATIONS),
             quick=8000)]),
    Property(
        'D04',
        'Histories of 1-6 assignments to elements and slices of a DM storage, and of slices of'
        ' it; all elements read back after each. Non-trivial: array of several elements.',
        [Sub('assign', check_assignments(['DM'], slices=True),
             case_of(array=arrays(cap=30), fmt=FORMATS,
                     ops=model.some(st.builds(
                         lambda op, chain: dict(op, chain=chain), ASSIGN,
                         model.chains(model.nonint_items, (0, 1, 2))), (2, 3, 1, 6))),
             quick=7000)]),
    Property(
        'D05',
        'Histories of slices, copies, conversions and assignments over a pool of up to 7 DM'
        ' storages and slices that share cells in the model (sharing is expected whenever the'
        ' slice keeps the number of groups, or the innermost storage is Strided or Buffer); all'
        ' storages read after each assignment. Non-trivial: an assignment while a slice or copy'
        ' exists.',
        [Sub('sharing', check_sharing(['DM'], ['DM', 'Strided', 'DM', 'COO']),
             case_of(array=arrays(cap=20), fmt=FORMATS,
                     ops=model.some(HISTORY, (3, 5, 8, 10))),
             quick=6000)],
        ['slices that drop a storage dimension of a sparse storage may or may not copy']),
    Property(
        'D06',
        'Arrays x two or three nested DM levels with any mappings x innermost storage classes x'
        ' index chains, enumeration, conversion, assignments; histories of slices, copies,'
        ' conversions and assignments. Non-trivial: several elements, or an assignment when'
        ' a slice or copy exists.',
        [Sub('nested', check_nested, nested_cases, quick=6000),
         Sub('histories', check_nested_histories, nested_histories, quick=2500)]),
    Property(
        'D07',
        'Invalid partitionings, dimensions, numbers of groups, storage classes and constructor'
        ' dimensions of arrays with rank 1-4; valid ones as control. Non-trivial: an invalid'
        ' one.',
        [Sub('rejected', check_rejected, bad_mappings, quick=6000)]),
]}
