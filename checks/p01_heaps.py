import copy
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap

prop = Property('P01', ['items compare consistently (total order) where the plain heaps are concerned',
                        'items of set heaps are hashable', 'single-threaded use, as documented'])

heap_ops = ops(op('push', small), op('push', small), op('push_many', st.lists(small, max_size=6)),
               op('pop'), op('pop'), op('pop_item', small), op('filter', st.integers(2, 4)),
               op('map', st.integers(-2, 2)), op('filtermap', st.integers(2, 3), st.integers(-2, 2)),
               op('copy'), op('deepcopy'), op('asc'), op('desc'))


def check_heap(h, model, name):
    eq(len(h), len(model), name + ' len')
    eq(bool(h), bool(model), name + ' bool')
    eq(sorted(h), sorted(model), name + ' contents')
    for x in range(-6, 12):
        eq(x in h, x in model, '%s contains %s' % (name, x))
    eq(list(h.iter_ascending()), sorted(model), name + ' ascending')
    eq(list(h.iter_descending()), sorted(model, reverse=True), name + ' descending')
    eq(sorted(h), sorted(model), name + ' contents after iteration')


def drive_heap(cls, init, program, is_set):
    def norm(xs):
        return sorted(set(xs)) if is_set else sorted(xs)

    if init is None:
        h, model = cls(), []
    else:
        h, model = cls(list(init)), norm(init)
    popped = False
    check_heap(h, model, 'init')
    for o in program:
        kind = o[0]
        if kind == 'push':
            h.push(o[1])
            model = norm(model + [o[1]])
        elif kind == 'push_many':
            h.push_many(iter(o[1]))
            model = norm(model + o[1])
        elif kind == 'pop':
            if model:
                eq(h.pop(), model.pop(0), 'pop must return the smallest')
                popped = True
            else:
                raises(IndexError, h.pop)
        elif kind == 'pop_item':
            if o[1] in model:
                eq(h.pop_item(o[1]), o[1], 'pop_item')
                model.remove(o[1])
                popped = True
            else:
                raises(ValueError, h.pop_item, o[1])
        elif kind == 'filter':
            h.filter_map(filter_fun=lambda x: x % o[1] != 0)
            model = [x for x in model if x % o[1] != 0]
        elif kind == 'map':
            # injective for sets
            h.filter_map(map_fun=lambda x: -x if o[1] < 0 else x)
            model = norm(-x if o[1] < 0 else x for x in model)
        elif kind == 'filtermap':
            h.filter_map(lambda x: x % o[1] == 0, lambda x: -x if o[2] < 0 else x)
            model = norm(-x if o[2] < 0 else x for x in model if x % o[1] == 0)
        elif kind in ('copy', 'deepcopy'):
            h2 = copy.copy(h) if kind == 'copy' else copy.deepcopy(h)
            check(type(h2) is cls, 'type of a copy')
            check(h2 == h, 'a copy equals the original')
            h2.push(100)
            check(100 not in h, 'copies must be independent')
            eq(h2.pop_item(100), 100, 'pop from copy')
            h, h2 = h2, h
            while h2:
                h2.pop()
        check_heap(h, model, str(o))
    drained = [h.pop() for _ in range(len(model))]
    eq(drained, model, 'draining')
    check(not h, 'drained')
    return popped and len(drained) > 1


@prop.facet(st.tuples(st.one_of(st.none(), st.lists(small, max_size=10)), heap_ops),
            'something popped mid-history and >=2 elements left to drain in order', quick=1500)
def heap(case):
    return drive_heap(Heap, case[0], case[1], False)


@prop.facet(st.tuples(st.one_of(st.none(), st.lists(small, max_size=10)), heap_ops),
            'something popped mid-history and >=2 elements left to drain in order', quick=1500)
def set_heap(case):
    return drive_heap(SetHeap, case[0], case[1], True)


class MyObj:
    def __init__(self, n):
        self.n = n


@prop.facet(st.lists(st.tuples(small, small), max_size=12), '>=3 tuples', quick=200)
def heap_multi_arg_push(case):
    h = Heap()
    for a, b in case:
        h.push(a, b)
    eq([h.pop() for _ in case], sorted(case), 'push(a, b) stores the tuple (a, b)')
    return len(case) >= 3


item = st.integers(0, 5)
tb_ops = ops(op('put', ts, item), op('put', ts, item), op('push', ts, item), op('put1', item),
             op('clock', st.integers(0, 4)), op('pop'), op('pop_less', ts), op('pop_less', ts), op('pop_less_now'),
             op('pop_timestamp', ts), op('pop_item', item), op('remove', item), op('get_ts', item),
             op('peek'), op('filter', item), op('shift', st.integers(1, 5)), op('copy'), op('deepcopy'))


def check_tb(h, model, mk, unique):
    eq(len(h), len(model), 'len')
    eq(bool(h), bool(model), 'bool')

    def canon(pairs):
        return sorted(((t, i.n if isinstance(i, Tok) else i) for t, i in pairs), key=repr)

    eq(canon(h), canon(model), 'contents')
    eq(sorted((i.n if isinstance(i, Tok) else i for i in h.items()), key=repr),
       sorted((i.n if isinstance(i, Tok) else i for t, i in model), key=repr), 'items()')
    asc = list(h.iter_ascending())
    eq([t for t, i in asc], sorted(t for t, i in model), 'ascending timestamps')
    eq(canon(asc), canon(model), 'ascending contents')
    desc = list(h.iter_descending())
    eq([t for t, i in desc], sorted((t for t, i in model), reverse=True), 'descending timestamps')
    for n in range(6):
        it = mk(n)
        tss = [t for t, i in model if i == it]
        if tss:
            check(h.get_timestamp(it) in tss, 'get_timestamp of %r gave %r, expected one of %r', it,
                  h.get_timestamp(it), tss)
        elif unique:
            raises(ValueError, h.get_timestamp, it)


def drive_tb(cls, comparable, program, unique):
    clock = FakeClock(3)
    h = cls(clock)
    mk = [Tok, lambda n: n * 10 + 1, [None, '', 0, (), 'a', 5].__getitem__][comparable]
    model = []
    pops = 0
    ties = 0

    def add(t, it):
        if unique:
            for x in list(model):
                if x[1] == it:
                    model.remove(x)
        model.append((t, it))

    def take(pair, what):
        pair = tuple(pair)
        check(pair in model, '%s: returned %r which is not stored', what, pair)
        model.remove(pair)

    for o in program:
        kind = o[0]
        if kind == 'put':
            h.put(o[1], mk(o[2]))
            add(o[1], mk(o[2]))
        elif kind == 'push':
            h.push((o[1], mk(o[2])))
            add(o[1], mk(o[2]))
        elif kind == 'put1':
            h.put(mk(o[1]))
            add(clock.now, mk(o[1]))
        elif kind == 'clock':
            clock.advance(o[1])
        elif kind == 'pop':
            if not model:
                raises(IndexError, h.pop)
            else:
                best = min(t for t, i in model)
                p = h.pop()
                eq(p[0], best, 'pop must return the lowest timestamp')
                take(p, 'pop')
                pops += 1
        elif kind in ('pop_less', 'pop_less_now'):
            less = o[1] if kind == 'pop_less' else clock.now
            got = list(h.pop_less_than(less) if kind == 'pop_less' else h.pop_less_than())
            eq([t for t, i in got], sorted(t for t, i in model if t < less),
               'pop_less_than(%r) timestamps' % less)
            for p in got:
                take(p, 'pop_less_than')
                pops += 1
        elif kind == 'pop_timestamp':
            if any(t == o[1] for t, i in model):
                take((o[1], h.pop_timestamp(o[1])), 'pop_timestamp')
                pops += 1
            else:
                raises(ValueError, h.pop_timestamp, o[1])
        elif kind == 'pop_item':
            it = mk(o[1])
            if any(i == it for t, i in model):
                p = h.pop_item(it)
                eq(p[1], it, 'pop_item')
                take(p, 'pop_item')
                pops += 1
            else:
                raises(ValueError, h.pop_item, it)
        elif kind == 'remove':
            it = mk(o[1])
            h.remove(it)
            model[:] = [p for p in model if p[1] != it]
        elif kind == 'filter':
            it = mk(o[1])
            h.filter_map(lambda p: p[1] != it)
            model[:] = [p for p in model if p[1] != it]
        elif kind == 'shift':
            h.filter_map(map_fun=lambda p: (p[0] + o[1], p[1]))
            model[:] = [(t + o[1], i) for t, i in model]
        elif kind == 'peek':
            if cls is TimeBasedHeap:
                if model:
                    p = h.peek_closest()
                    eq(p[0], min(t for t, i in model), 'peek_closest')
                    check(tuple(p) in model, 'peek_closest returned a thing not stored: %r', p)
                else:
                    raises(IndexError, h.peek_closest)
        elif kind in ('copy', 'deepcopy'):
            h2 = copy.copy(h) if kind == 'copy' else copy.deepcopy(h)
            check_tb(h2, model, mk, unique)
            while h:
                h.pop()
            h = h2
            if kind == 'deepcopy':
                h.default_clock_source = clock  # may or may not have been copied
        check_tb(h, model, mk, unique)
        ties += len({t for t, i in model}) < len(model)
    rest = [h.pop() for _ in range(len(model))]
    eq([t for t, i in rest], sorted(t for t, i in model), 'draining')
    for p in rest:
        take(p, 'drain')
    return pops > 0 and ties > 0


@prop.facet(st.tuples(st.integers(0, 2), tb_ops), 'an element was popped mid-history and equal timestamps coexisted at some point', quick=2000)
def time_heap(case):
    return drive_tb(TimeBasedHeap, case[0], case[1], False)


@prop.facet(st.tuples(st.integers(0, 2), tb_ops), 'an element was popped mid-history and equal timestamps coexisted at some point', quick=2000)
def time_set_heap(case):
    return drive_tb(TimeBasedSetHeap, case[0], case[1], True)
