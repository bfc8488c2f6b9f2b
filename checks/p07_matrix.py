from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import SparseMatrix

prop = Property('P07', ['indices from -size to any non-negative integer; values compare with each other'])
c = st.integers(0, 5)
v = st.one_of(st.integers(-9, 9), st.integers(-9, 9), st.integers(-9, 9), st.none())
rowdata = st.lists(v, max_size=5)
sl = st.sampled_from(['slice', 'ellipsis'])
neg = st.sampled_from([False, False, True])     # whether to count from the end
mat_ops = ops(op('set', c, c, v), op('set', c, c, v), op('set', c, c, v), op('setneg', c, c, v), op('setrow', c, rowdata, sl, neg), op('setcol', c, rowdata, sl, neg),
              op('setall', st.lists(rowdata, max_size=4), sl), op('append', rowdata), op('del', c, c), op('del', c, c), op('delneg', c, c),
              op('delrowmethod', c), op('delrow', c, sl, neg), op('delcol', c, sl, neg), op('delall', sl), op('clear'),
              op('custom', c), max_size=30)


def S(kind):
    return Ellipsis if kind == 'ellipsis' else slice(None)


def compare(sm, model):
    cols = max((k[0] for k in model), default=-1) + 1
    rows = max((k[1] for k in model), default=-1) + 1
    eq((sm.columns, sm.rows, len(sm)), (cols, rows, rows), 'dimensions')
    eq(bool(sm), rows > 0, 'bool')
    want = [[model.get((x, y)) for x in range(cols)] for y in range(rows)]
    eq(list(sm), want, 'rows')
    eq(sm[:, :], want, 'everything')
    for y in range(rows):
        eq(sm[:, y], want[y], 'row %s' % y)
        eq(sm[..., y], want[y], 'row %s' % y)
        eq(sm.get_row(y), want[y], 'row %s' % y)
        for x in range(cols):
            eq(sm[x, y], want[y][x], 'element')
            eq(sm[x - cols, y - rows], want[y][x], 'element by negative index')
            d = {(x + a, y + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b}
            d = {q for q in d if 0 <= q[0] < cols and 0 <= q[1] < rows}
            got = list(sm.get_neighbour_coordinates(x, y))
            eq(sorted(got), sorted(d), 'neighbours')
            got = list(sm.get_neighbour_coordinates(x, y, include_diagonals=False))
            eq(sorted(got), sorted(q for q in d if q[0] == x or q[1] == y), 'neighbours')
    for x in range(cols):
        eq(sm[x, :], [w[x] for w in want], 'column %s' % x)
    raises(IndexError, lambda: sm[cols, 0])
    raises(IndexError, lambda: sm[0, rows])
    if model:
        eq(sm.max(), max(model.values()), 'max')
        eq(sm.min(), min(model.values()), 'min')
    other = SparseMatrix(want)
    check(sm == other and other == sm, 'a matrix with the same elements is not equal')
    shot = sm.shoot()
    compare_shot = {(2 * x, 2 * y): z for (x, y), z in model.items()}
    eq(shot[:, :], [[compare_shot.get((x, y)) for x in range(max(2 * cols - 1, 0))]
                    for y in range(max(2 * rows - 1, 0))], 'shoot')
    check((sm == SparseMatrix([[99, 99]])) is False, 'equal to a different one')


@prop.facet(st.tuples(st.lists(rowdata, max_size=4), mat_ops), 'at least one present element was overwritten or deleted', quick=1500)
def sparse_matrix(case):
    initial, program = case
    sm = SparseMatrix(initial) if initial else SparseMatrix()
    model = {}
    nt = False

    def put(x, y, z):
        nonlocal nt
        nt = nt or (x, y) in model
        if z is None:
            model.pop((x, y), None)
        else:
            model[x, y] = z

    for y, row in enumerate(initial):
        for x, z in enumerate(row):
            put(x, y, z)
    for o in program:
        kind = o[0]
        cols = max((k[0] for k in model), default=-1) + 1
        rows = max((k[1] for k in model), default=-1) + 1
        if kind in ('setrow', 'delrow', 'setcol', 'delcol'):
            size = rows if kind.endswith('row') else cols
            if o[-1] and size:
                at = o[1] % size - size
                pos = at + size
            else:
                at = pos = o[1]
        if kind == 'set':
            sm[o[1], o[2]] = o[3]
            put(*o[1:])
        elif kind in ('setneg', 'delneg'):
            if not (cols and rows):
                continue
            x, y = -1 - o[1] % cols, -1 - o[2] % rows
            if kind == 'setneg':
                sm[x, y] = o[3]
                put(x + cols, y + rows, o[3])
            else:
                del sm[x, y]
                put(x + cols, y + rows, None)
        elif kind == 'setrow':
            sm[S(o[3]), at] = o[2]
            for x, z in enumerate(o[2]):
                put(x, pos, z)
        elif kind == 'setcol':
            sm[at, S(o[3])] = o[2]
            for y, z in enumerate(o[2]):
                put(pos, y, z)
        elif kind == 'setall':
            sm[S(o[2]), S(o[2])] = o[1]
            model.clear()
            for y, row in enumerate(o[1]):
                for x, z in enumerate(row):
                    put(x, y, z)
        elif kind == 'append':
            sm.append_row(iter(o[1]))
            for x, z in enumerate(o[1]):
                put(x, rows, z)
        elif kind == 'del':
            del sm[o[1], o[2]]
            put(o[1], o[2], None)
        elif kind == 'delrowmethod':
            sm.delete_row(o[1])
            for x in range(cols):
                put(x, o[1], None)
        elif kind == 'delrow':
            del sm[S(o[2]), at]
            for x in range(cols):
                put(x, pos, None)
        elif kind == 'delcol':
            del sm[at, S(o[2])]
            for y in range(rows):
                put(pos, y, None)
        elif kind == 'delall':
            del sm[S(o[1]), S(o[1])]
            model.clear()
        elif kind == 'clear':
            sm.clear()
            model.clear()
        elif kind == 'custom':
            raises(IndexError, lambda: sm[1:, o[1]])
        compare(sm, model)
    built = SparseMatrix.from_iterable([model.get((x, y)) for x in range(6)] for y in range(8))
    compare(built, {k: z for k, z in model.items() if k[0] < 6 and k[1] < 8})
    return nt
