import collections
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import SortedList, SliceableDeque, Ranking

prop = Property('P02', ['the key of an element does not change while it is stored (documented)'])

idx = st.one_of(st.none(), st.integers(-12, 12))
slc = st.tuples(idx, idx, st.one_of(st.none(), st.sampled_from([1, 2, 3, -1, -2, -3])))
elem = st.tuples(small, st.integers(0, 3))


class El:
    """Element with a key and no ordering"""

    def __init__(self, t):
        self.k, self.n = t

    def __eq__(self, other):
        return isinstance(other, El) and (self.k, self.n) == (other.k, other.n)

    def __hash__(self):
        return hash((self.k, self.n))

    def __repr__(self):
        return 'El(%s, %s)' % (self.k, self.n)


def mkkey(kind):
    return {'id': lambda e: e, 'neg': lambda e: -e, 'mod': lambda e: e % 4, 'el': lambda e: e.k,
            'nel': lambda e: -e.k}[kind]


def check_sorted(sl, model, key, slice_):
    got = list(sl)
    eq(len(sl), len(model), 'len')
    eq(bool(sl), bool(model), 'bool')
    eq([key(x) for x in got], sorted(key(x) for x in model), 'keys are in order')
    eq(collections.Counter(got), collections.Counter(model), 'contents')
    if got:
        eq(sl[0], got[0], '[0]')
        eq(sl[-1], got[-1], '[-1]')
        eq(sl[len(got) // 2], got[len(got) // 2], '[mid]')
    raises(IndexError, lambda: sl[len(got)])
    s = slice(*slice_)
    eq(list(sl[s]), got[s], 'slice %s' % (s,))


@prop.facet(st.tuples(st.sampled_from(['id', 'neg', 'mod', 'el', 'nel']), st.lists(elem, max_size=8),
                      ops(op('add', elem), op('add', elem), op('extend', st.lists(elem, max_size=4)),
                          op('remove', elem), op('removeat', st.integers(0, 20)), op('pop'),
                          op('popleft'), op('contains', elem), op('index', st.integers(0, 20))), slc),
            '>=1 addition and >=1 removal and >=2 equal keys at some point', quick=2500)
def sorted_list(case):
    kind, init, program, slice_ = case
    key = mkkey(kind)
    mk = El if kind.endswith('el') else (lambda t: t[0])
    model = [mk(t) for t in init]
    sl = SortedList(list(model), key) if kind != 'id' else SortedList(list(model))
    check_sorted(sl, model, key, slice_)
    added = removed = ties = 0
    for o in program:
        if o[0] == 'add':
            x = mk(o[1])
            i = sl.add(x)
            model.append(x)
            eq(sl[i], x, 'add() returns the index of the element')
            added += 1
        elif o[0] == 'extend':
            xs = [mk(t) for t in o[1]]
            sl.extend(iter(xs))
            model.extend(xs)
        elif o[0] == 'remove':
            x = mk(o[1])
            if x in model:
                sl.remove(x)
                model.remove(x)
                removed += 1
            else:
                raises(ValueError, sl.remove, x)
        elif o[0] == 'removeat':
            if model:
                x = model[o[1] % len(model)]
                sl.remove(x)
                model.remove(x)
                removed += 1
        elif o[0] in ('pop', 'popleft'):
            if model:
                x = getattr(sl, o[0])()
                want = (max if o[0] == 'pop' else min)(key(y) for y in model)
                eq(key(x), want, o[0])
                check(x in model, '%s returned %r which was not there', o[0], x)
                model.remove(x)
                removed += 1
            else:
                raises(IndexError, getattr(sl, o[0]))
        elif o[0] == 'contains':
            x = mk(o[1])
            eq(x in sl, x in model, 'contains')
        elif o[0] == 'index':
            if model:
                x = model[o[1] % len(model)]
                eq(sl[sl.index(x)], x, 'index')
            raises(ValueError, sl.index, El((99, 99)))
        check_sorted(sl, model, key, slice_)
        ties += len({key(y) for y in model}) < len(model)
    return bool(added and removed and ties)


@prop.facet(st.tuples(st.lists(elem, max_size=8, unique=True),
                      ops(op('add', elem), op('add', elem), op('remove', st.integers(0, 20)),
                          op('removeabsent', elem), max_size=25), slc),
            '>=1 addition and >=1 removal', quick=2000)
def ranking(case):
    init, program, slice_ = case
    model = [El(t) for t in init]
    r = Ranking(list(model), lambda e: e.k)
    added = removed = 0

    def verify():
        got = list(r.get_sorted())
        eq([x.k for x in got], sorted(x.k for x in model), 'get_sorted order')
        eq(collections.Counter(got), collections.Counter(model), 'get_sorted contents')
        for pos, x in enumerate(got):
            eq(r.get_position_of(x), pos, 'position')
            eq(r.calculate_ranking_for(x), pos, 'calculate_ranking_for')
            eq(r[pos], x, '[]')
            eq(r[pos - len(got)], x, '[negative]')
        s = slice(*slice_)
        eq(list(r[s]), got[s], 'slice')

    verify()
    for o in program:
        if o[0] == 'add':
            x = El(o[1])
            if x in model:
                continue
            r.add(x)
            model.append(x)
            added += 1
        elif o[0] == 'remove':
            if not model:
                continue
            x = model.pop(o[1] % len(model))
            r.remove(x)
            raises(ValueError, r.get_position_of, x)
            removed += 1
        elif o[0] == 'removeabsent':
            x = El(o[1])
            if x not in model:
                raises(ValueError, r.remove, x)
                raises(ValueError, r.get_position_of, x)
        verify()
    return bool(added and removed)


@prop.facet(st.tuples(st.lists(small, max_size=12),
                      ops(op('append', small), op('appendleft', small), op('insert', st.integers(-5, 14), small),
                          op('set', st.integers(-6, 14), small), op('del', st.integers(-6, 14)), op('pop'),
                          op('popleft'), op('slice', slc), op('slice', slc), op('get', st.integers(-14, 14)),
                          op('extend', st.lists(small, max_size=4)), op('reverse'), op('remove', small),
                          op('rotate', st.integers(-3, 3)))),
            'a slice of >=2 elements was compared', quick=2000)
def sliceable_deque(case):
    init, program = case
    d = SliceableDeque(init)
    m = collections.deque(init)
    nt = False

    def both(f):
        a, b = Outcome.of(f, d), Outcome.of(f, m)
        eq(a, b, 'outcome')

    for o in program:
        k = o[0]
        if k == 'append':
            both(lambda x: x.append(o[1]))
        elif k == 'appendleft':
            both(lambda x: x.appendleft(o[1]))
        elif k == 'insert':
            both(lambda x: x.insert(o[1], o[2]))
        elif k == 'set':
            both(lambda x: x.__setitem__(o[1], o[2]))
        elif k == 'del':
            both(lambda x: x.__delitem__(o[1]))
        elif k == 'pop':
            both(lambda x: x.pop())
        elif k == 'popleft':
            both(lambda x: x.popleft())
        elif k == 'slice':
            s = slice(*o[1])
            want = list(m)[s]
            eq(list(d[s]), want, 'slice %s' % (s,))
            nt = nt or len(want) >= 2
        elif k == 'get':
            both(lambda x: x[o[1]])
        elif k == 'extend':
            both(lambda x: x.extend(o[1]))
        elif k == 'reverse':
            both(lambda x: x.reverse())
        elif k == 'remove':
            both(lambda x: x.remove(o[1]))
        elif k == 'rotate':
            both(lambda x: x.rotate(o[1]))
        eq(list(d), list(m), 'contents after %s' % (o,))
        eq(list(reversed(d)), list(reversed(m)), 'reversed')
        eq(len(d), len(m), 'len')
        eq(bool(d), bool(m), 'bool')
        for x in range(-4, 9):
            eq(x in d, x in m, 'contains')
    return nt
