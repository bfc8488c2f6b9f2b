"""Sequence functions give what their plain list definitions give, for any kind of iterable"""
import itertools
import warnings
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding import chain
from satella.coding import sequences as S

prop = Property('P12', ['shift factors do not exceed the length of the sequence', 'float ranges use exactly representable steps'])
lst = st.lists(small, max_size=9)
KINDS = ['list', 'tuple', 'gen', 'iter', 'range']


def src(kind, data):
    """The same data as a list, a tuple, a generator, or an iterator"""
    if kind == 'list':
        return list(data)
    if kind == 'tuple':
        return tuple(data)
    if kind == 'gen':
        return (x for x in list(data))
    return iter(list(data))


kind = st.sampled_from(KINDS[:4])


def m_group(n, x):
    return [x[i:i + n] for i in range(0, len(x), n)]


def m_add_next(x, wrap, skip):
    out = list(zip(x, x[1:]))
    if x:
        if wrap:
            out.append((x[-1], x[0]))
        elif not skip:
            out.append((x[-1], None))
    return out


def m_unique(x):
    out = []
    for q in x:
        if q not in out:
            out.append(q)
    return out


def q0(n):
    return [None, 0, '', n][n % 4]


it_left = [None]


def iter_(s):
    it_left[0] = iter(s)
    return it_left[0]


# name -> (function called, model), both getting (source, data, n, m, flag, other source, other data)
FUNS = {
    'is_last': (lambda s, n, m, f, o: list(S.is_last(s)), lambda x, n, m, f, y: [(i == len(x) - 1, q) for i, q in enumerate(x)]),
    'add_next': (lambda s, n, m, f, o: list(S.add_next(s, wrap_over=f, skip_last=bool(n % 2))), lambda x, n, m, f, y: m_add_next(x, f, bool(n % 2))),
    'half_cartesian': (lambda s, n, m, f, o: list(S.half_cartesian(s, include_same_pairs=f)),
                       lambda x, n, m, f, y: [(x[i], x[j]) for i in range(len(x)) for j in range(i if f else i + 1, len(x))]),
    'group_quantity': (lambda s, n, m, f, o: [list(q) for q in S.group_quantity(n + 1, s)], lambda x, n, m, f, y: m_group(n + 1, x)),
    'filter_out_nones': (lambda s, n, m, f, o: S.filter_out_nones(q if q > 0 else None for q in s), lambda x, n, m, f, y: [q for q in x if q > 0]),
    'filter_out_false': (lambda s, n, m, f, o: S.filter_out_false(s), lambda x, n, m, f, y: [q for q in x if q]),
    'index_of': (lambda s, n, m, f, o: S.index_of(lambda q: q == n, s), lambda x, n, m, f, y: x.index(n)),
    'choose': (lambda s, n, m, f, o: S.choose(lambda q: q > n, s), lambda x, n, m, f, y: _first(x, lambda q: q > n)),
    'choose_one': (lambda s, n, m, f, o: S.choose_one(lambda q: q > n, s), lambda x, n, m, f, y: _only(x, lambda q: q > n)),
    'choose_multiple': (lambda s, n, m, f, o: S.choose(lambda q: q > n, s, check_multiple=True), lambda x, n, m, f, y: _only(x, lambda q: q > n)),
    'choose_with_index': (lambda s, n, m, f, o: S.choose_with_index(lambda q: q > n, s), lambda x, n, m, f, y: (_first(x, lambda q: q > n), x.index(_first(x, lambda q: q > n)))),
    'length': (lambda s, n, m, f, o: S.length(s), lambda x, n, m, f, y: len(x)),
    'append_sequence': (lambda s, n, m, f, o: list(S.append_sequence(((q,) if f else [q] for q in s), n, m)), lambda x, n, m, f, y: [(q, n, m) for q in x]),
    'append_sequence_any': (lambda s, n, m, f, o: list(S.append_sequence(((q for q in [q, n]) if f else range(m) for q in s), q0(n))), lambda x, n, m, f, y: [((q, n) if f else tuple(range(m))) + (q0(n),) for q in x]),
    'smart_enumerate_any': (lambda s, n, m, f, o: list(S.smart_enumerate(((q for q in [q, n]) if f else 'ab'[:m] for q in s), n - m, -m)), lambda x, n, m, f, y: [(n - m - i * m,) + ((q, n) if f else tuple('ab'[:m])) for i, q in enumerate(x)]),
    'smart_enumerate_step': (lambda s, n, m, f, o: list(S.smart_enumerate(((q,) for q in s), n, m - n)), lambda x, n, m, f, y: [(n + i * (m - n), q) for i, q in enumerate(x)]),
    'enumerate2_negative': (lambda s, n, m, f, o: list(S.enumerate2(s, n, -m)), lambda x, n, m, f, y: [(n - i * m, q) for i, q in enumerate(x)]),
    'count_negative': (lambda s, n, m, f, o: list(S.count(s, n, -m)), lambda x, n, m, f, y: [n - i * m for i in range(len(x))]),
    'infinite_counter_negative': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_counter(n, -m), 4)), lambda x, n, m, f, y: [n - m * i for i in range(4)]),
    'is_empty_exhausts': (lambda s, n, m, f, o: (S.is_empty(iter_(s), exhaust=True), list(it_left[0])), lambda x, n, m, f, y: (not x, [])),
    'unique': (lambda s, n, m, f, o: list(S.unique(s)), lambda x, n, m, f, y: m_unique(x)),
    'even': (lambda s, n, m, f, o: list(S.even(s)), lambda x, n, m, f, y: x[::2]),
    'odd': (lambda s, n, m, f, o: list(S.odd(s)), lambda x, n, m, f, y: x[1::2]),
    'count': (lambda s, n, m, f, o: list(S.count(s, n, m)), lambda x, n, m, f, y: [n + m * i for i in range(len(x))]),
    'count_start_at': (lambda s, n, m, f, o: list(S.count(s, start_at=n)), lambda x, n, m, f, y: [n + i for i in range(len(x))]),
    'iter_dict_of_list': (lambda s, n, m, f, o: list(S.iter_dict_of_list({n: list(s), n + 1: [], n + 2: list(o)})), lambda x, n, m, f, y: [(n, q) for q in x] + [(n + 2, q) for q in y]),
    'other_sequence_no_longer_than': (lambda s, n, m, f, o: list(S.other_sequence_no_longer_than(s, o)), lambda x, n, m, f, y: y[:len(x)]),
    'shift': (lambda s, n, m, f, o: list(S.shift(s, n)), lambda x, n, m, f, y: (x[n:] + x[:n]) if n <= len(x) else None),
    'shift_negative': (lambda s, n, m, f, o: list(S.shift(s, -n)), lambda x, n, m, f, y: (x[-n:] + x[:-n]) if 0 < n <= len(x) else (x if n == 0 else None)),
    'zip_shifted': (lambda s, n, m, f, o: list(S.zip_shifted((s, n), list(o))), lambda x, n, m, f, y: list(zip(x[n:] + x[:n], y)) if n <= len(x) else None),
    'skip_first': (lambda s, n, m, f, o: list(S.skip_first(s, n)), lambda x, n, m, f, y: x[n:]),
    'stop_after': (lambda s, n, m, f, o: list(S.stop_after(s, n)), lambda x, n, m, f, y: x[:n]),
    'n_th': (lambda s, n, m, f, o: S.n_th(s, n), lambda x, n, m, f, y: x[n]),
    'take_n': (lambda s, n, m, f, o: S.take_n(s, n), lambda x, n, m, f, y: x[:n]),
    'take_n_skip': (lambda s, n, m, f, o: S.take_n(s, n, skip=m), lambda x, n, m, f, y: x[m:m + n]),
    'is_empty': (lambda s, n, m, f, o: S.is_empty(s, exhaust=f), lambda x, n, m, f, y: not x),
    'map_list': (lambda s, n, m, f, o: S.map_list(lambda q: q * n, s), lambda x, n, m, f, y: [q * n for q in x]),
    'to_iterator': (lambda s, n, m, f, o: list(S.to_iterator(lambda q: q + n)(s)), lambda x, n, m, f, y: [q + n for q in x]),
    'smart_zip': (lambda s, n, m, f, o: list(S.smart_zip(((q, q) if q % 2 else q for q in s), o)), lambda x, n, m, f, y: [((p, p) if p % 2 else (p,)) + (q,) for p, q in zip(x, y)]),
    'enumerate2': (lambda s, n, m, f, o: list(S.enumerate2(s, n, m)), lambda x, n, m, f, y: [(n + i * m, q) for i, q in enumerate(x)]),
    'smart_enumerate': (lambda s, n, m, f, o: list(S.smart_enumerate(((q, 1) if f else [q, 1] for q in s), n, m)), lambda x, n, m, f, y: [(n + i * m, q, 1) for i, q in enumerate(x)]),
    'chain': (lambda s, n, m, f, o: list(chain(n, s, m, o, None)), lambda x, n, m, f, y: [n] + x + [m] + y + [None]),
    'iterate_callable': (lambda s, n, m, f, o: list(S.iterate_callable(list(s).__getitem__, n)), lambda x, n, m, f, y: x[n:]),
    'f_range1': (lambda s, n, m, f, o: list(S.f_range(n + 0.5)), lambda x, n, m, f, y: list(range(n + 1))),
    'f_range2': (lambda s, n, m, f, o: list(S.f_range(n / 4, m / 2)), lambda x, n, m, f, y: [n / 4 + i for i in range(20) if n / 4 + i < m / 2]),
    'f_range3': (lambda s, n, m, f, o: list(S.f_range(n / 4, m / 2, 0.25)), lambda x, n, m, f, y: [n / 4 + i / 4 for i in range(80) if n / 4 + i / 4 < m / 2]),
    'f_range3_negative': (lambda s, n, m, f, o: list(S.f_range(n / 4, m / 2, -0.25)), lambda x, n, m, f, y: [n / 4 - i / 4 for i in range(80) if n / 4 - i / 4 > m / 2]),
    'enumerate2_default': (lambda s, n, m, f, o: list(S.enumerate2(s, n)), lambda x, n, m, f, y: [(n + i, q) for i, q in enumerate(x)]),
    'enumerate2_defaults': (lambda s, n, m, f, o: list(S.enumerate2(s)), lambda x, n, m, f, y: list(enumerate(x))),
    'smart_enumerate_defaults': (lambda s, n, m, f, o: list(S.smart_enumerate((q, 1) for q in s)), lambda x, n, m, f, y: [(i, q, 1) for i, q in enumerate(x)]),
    'count_defaults': (lambda s, n, m, f, o: list(S.count(s)), lambda x, n, m, f, y: list(range(len(x)))),
    'count_step': (lambda s, n, m, f, o: list(S.count(s, step=m)), lambda x, n, m, f, y: [i * m for i in range(len(x))]),
    'infinite_counter_defaults': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_counter(), n)), lambda x, n, m, f, y: list(range(n))),
    'infinite_counter_start': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_counter(n), 4)), lambda x, n, m, f, y: list(range(n, n + 4))),
    'infinite_iterator_default': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_iterator(), n)), lambda x, n, m, f, y: [None] * n),
    'iterate_callable_default': (lambda s, n, m, f, o: list(S.iterate_callable(list(s).__getitem__)), lambda x, n, m, f, y: list(x)),
    'is_last_of_none': (lambda s, n, m, f, o: list(S.is_last(iter([None] * n))), lambda x, n, m, f, y: [(i == n - 1, None) for i in range(n)]),
    'add_next_default': (lambda s, n, m, f, o: list(S.add_next(s)), lambda x, n, m, f, y: m_add_next(x, False, False)),
    'half_cartesian_default': (lambda s, n, m, f, o: list(S.half_cartesian(s)), lambda x, n, m, f, y: [(x[i], x[j]) for i in range(len(x)) for j in range(i, len(x))]),
    'is_empty_default': (lambda s, n, m, f, o: S.is_empty(s), lambda x, n, m, f, y: not x),
    'n_th_default': (lambda s, n, m, f, o: S.n_th(s), lambda x, n, m, f, y: x[0]),
    'make_list_default': (lambda s, n, m, f, o: S.make_list(list(s), n), lambda x, n, m, f, y: [list(x)] * n),
    'make_list': (lambda s, n, m, f, o: S.make_list(list(s), n, deep_copy=f), lambda x, n, m, f, y: [x] * n),
    'infinite_iterator': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_iterator(n), m)), lambda x, n, m, f, y: [n] * m),
    'infinite_iterator_factory': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_iterator(return_factory=lambda: n), m)), lambda x, n, m, f, y: [n] * m),
    'infinite_counter': (lambda s, n, m, f, o: list(itertools.islice(S.infinite_counter(n, m), 4)), lambda x, n, m, f, y: [n + m * i for i in range(4)]),
}
# those that do not look into the elements get elements that are false, too
BLIND = {'is_last', 'add_next', 'half_cartesian', 'group_quantity', 'filter_out_false', 'length', 'append_sequence', 'unique', 'even', 'odd', 'count', 'count_start_at',
         'iter_dict_of_list', 'other_sequence_no_longer_than', 'shift', 'shift_negative', 'zip_shifted', 'skip_first', 'stop_after', 'n_th', 'take_n', 'take_n_skip',
         'is_empty', 'enumerate2', 'smart_enumerate', 'chain', 'iterate_callable', 'make_list', 'enumerate2_default', 'enumerate2_defaults', 'smart_enumerate_defaults', 'count_defaults', 'count_step',
         'iterate_callable_default', 'add_next_default', 'half_cartesian_default', 'is_empty_default', 'n_th_default', 'make_list_default'}
ODD = {-1: 'end', 0: None, 1: '', 2: (), 3: False, 4: frozenset(), 5: 0.0}
odd = lambda x: [ODD.get(q, q) for q in x]
ERRORS = {'index_of': ValueError, 'choose': ValueError, 'choose_one': ValueError, 'choose_multiple': ValueError, 'choose_with_index': ValueError, 'n_th': IndexError, 'n_th_default': IndexError}


def _first(x, pred):
    return next(q for q in x if pred(q))


def _only(x, pred):
    y = [q for q in x if pred(q)]
    if len(y) != 1:
        raise ValueError()
    return y[0]


@prop.facet(st.tuples(st.sampled_from(sorted(FUNS)), kind, lst, st.integers(0, 5), st.integers(0, 5), st.booleans(), kind, lst, st.booleans()),
            'the sequence is not empty', quick=10000)
def functions(case):
    name, k, data, n, m, flag, k2, other, odds = case
    if odds and name in BLIND:
        data, other = odd(data), odd(other)
    fun, model = FUNS[name]
    before = list(data)
    try:
        want = model(list(data), n, m, flag, list(other))
        if want is None:
            return False
        err = None
    except (StopIteration, ValueError, IndexError):
        err = ERRORS[name]
    s = src(k, data)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if err:
            raises(err, fun, s, n, m, flag, src(k2, other))
        else:
            got = fun(s, n, m, flag, src(k2, other))
            eq(got, want, name)
    if k == 'list':
        eq(s, before, 'the argument of %s' % name)
    return bool(data)


@prop.facet(st.tuples(st.lists(small, max_size=8)), 'the maximum repeats', quick=300)
def index_of_max(case):
    x, = case
    if not x:
        raises(ValueError, S.index_of_max, x)
        return False
    eq(S.index_of_max(x), x.index(max(x)), 'index_of_max')
    return x.count(max(x)) > 1


# consumption: functions on iterators take no more than they need
CONSUME = {
    'take_n': (lambda it, n: S.take_n(it, n), lambda x, n: n),
    'n_th': (lambda it, n: S.n_th(it, n), lambda x, n: n + 1),
    'is_empty': (lambda it, n: S.is_empty(it, exhaust=False), lambda x, n: 1),
    'choose': (lambda it, n: S.choose(lambda q: True, it), lambda x, n: 1),
    'index_of': (lambda it, n: S.index_of(lambda q: True, it), lambda x, n: 1),
    'group_quantity': (lambda it, n: next(S.group_quantity(n + 1, it)), lambda x, n: n + 2),
    'unique': (lambda it, n: next(S.unique(it)), lambda x, n: 1),
    'even': (lambda it, n: next(S.even(it)), lambda x, n: 1),
    'odd': (lambda it, n: next(S.odd(it), None), lambda x, n: 2),
    'stop_after': (lambda it, n: list(S.stop_after(it, n)), lambda x, n: n),
    'count': (lambda it, n: next(S.count(it)), lambda x, n: 1),
    'enumerate2': (lambda it, n: next(S.enumerate2(it)), lambda x, n: 1),
    'smart_enumerate': (lambda it, n: next(S.smart_enumerate((q,) for q in it)), lambda x, n: 1),
    'append_sequence': (lambda it, n: next(S.append_sequence(((q,) for q in it), n)), lambda x, n: 1),
    'smart_zip': (lambda it, n: next(S.smart_zip(it, [1])), lambda x, n: 1),
    'to_iterator': (lambda it, n: next(S.to_iterator(lambda q: q)(it)), lambda x, n: 1),
    'skip_first': (lambda it, n: next(S.skip_first(it, n), None), lambda x, n: n + 1),
    'shift': (lambda it, n: next(S.shift(it, min(n, 1)), None), lambda x, n: n + 1),
    'is_last': (lambda it, n: next(iter(S.is_last(it))), lambda x, n: 2),
    'add_next': (lambda it, n: next(iter(S.add_next(it)), None), lambda x, n: 2),
    'other_sequence_no_longer_than': (lambda it, n: list(S.other_sequence_no_longer_than([1] * n, it)), lambda x, n: n),
}


@prop.facet(st.tuples(st.sampled_from(sorted(CONSUME)), st.lists(small, min_size=1, max_size=9), st.integers(0, 4)),
            'the iterator has more elements than needed', quick=500)
def laziness(case):
    name, data, n = case
    taken = []

    def gen():
        for q in data:
            taken.append(q)
            yield q
    f, limit = CONSUME[name]
    try:
        f(gen(), n)
    except IndexError:
        pass
    check(len(taken) <= limit(data, n), '%s consumed %s elements, needs %s', name, len(taken), limit(data, n))
    return len(data) > limit(data, n)


hashable = st.one_of(small, st.text('ab', max_size=1), st.tuples(small))
elem = st.one_of(hashable, st.lists(st.integers(0, 1), max_size=2).map(list), hashable, st.builds(lambda s, f: (frozenset if f else set)(s), st.lists(st.integers(0, 1), max_size=2), st.booleans()))


@prop.facet(st.tuples(st.lists(elem, max_size=12)), 'an element repeats', quick=800)
def already_seen(case):
    x, = case
    als = S.AlreadySeen()
    seen = []
    nt = False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for q in x:
            eq(als.is_unique(q), q not in seen, 'uniqueness of %r after %r' % (q, seen))
            nt = nt or q in seen
            seen.append(q)
    return nt


tree = st.recursive(st.just([]), lambda c: st.lists(c, max_size=3), max_leaves=12)


class Node:
    def __init__(self, spec, path=()):
        self.path = path
        self.children = [Node(c, path + (i,)) for i, c in enumerate(spec)]


@prop.facet(st.tuples(tree, st.booleans(), st.booleans(), st.booleans()), 'the tree has at least two levels', quick=1000)
def walk(case):
    spec, deep, leaves, use_none = case
    root = Node(spec)

    def pre(n):
        for c in n.children:
            yield c
            yield from pre(c)

    def level(n):
        todo = list(n.children)
        while todo:
            q = todo.pop(0)
            yield q
            todo.extend(q.children)
    want = [n.path for n in (pre(root) if deep else level(root)) if not leaves or not n.children]

    def getter(n):
        if use_none and not n.children:
            return None
        return n.children
    eq([n.path for n in S.walk(root, getter, deep_first=deep, leaves_only=leaves)], want, 'walk')
    return any(root.children) and any(c.children for c in root.children)


@prop.facet(st.tuples(lst, ops(op('next'), op('next'), op('add', small), op('addi', small), op('many', lst), op('manyi', lst), max_size=20)),
            'elements were added in the middle of iterating', quick=800)
def construable_iterator(case):
    data, program = case
    data = odd(data)
    program = [(o[0], *([odd(q) if isinstance(q, list) else ODD.get(q, q) for q in o[1:]])) for o in program]
    ci = S.ConstruableIterator(data)
    model = list(data)
    nt = False
    for o in program:
        if o[0] == 'next':
            if model:
                eq(next(ci), model.pop(0), 'next')
            else:
                raises(StopIteration, next, ci)
            continue
        nt = nt or bool(model)
        if o[0] == 'add':
            ci.add(o[1])
            model.append(o[1])
        elif o[0] == 'addi':
            ci.add_immediate(o[1])
            model.insert(0, o[1])
        elif o[0] == 'many':
            ci.add_many(iter(o[1]))
            model.extend(o[1])
        else:
            ci.add_many_immediate(iter(o[1]))
            model = list(o[1]) + model
        eq(ci.__length_hint__(), len(model), 'length hint')
    eq(list(ci), model, 'the rest')
    return nt


@prop.facet(st.tuples(st.integers(1, 5), ops(op('insert', st.integers(-20, 20)), op('insert', st.integers(-20, 20)), op('avg'), op('clear'), max_size=25)),
            'the window overflowed', quick=600)
def rolling_average(case):
    n, program = case
    r = S.RollingArithmeticAverage(n)
    model = []
    nt = False
    for o in program:
        if o[0] == 'insert':
            r.insert(o[1])
            model.append(o[1])
        elif o[0] == 'clear':
            r.clear()
            model = []
        window = model[-n:]
        nt = nt or len(model) > n
        if window:
            eq(r.avg(), sum(window) / len(window), 'average')
        else:
            raises(ZeroDivisionError, r.avg)
    return nt


class Ctr:
    def __init__(self, v):
        self.v = v

    def add(self, k, times=1):
        self.v += k * times
        return 'ignored'

    def __eq__(self, other):
        return self.v == other.v

    def __repr__(self):
        return 'Ctr(%s)' % self.v


def _mk_inplace(name, fun):
    def f(self, other):
        self.v = fun(self.v, other)
        return self
    setattr(Ctr, '__i%s__' % name, f)


_INPLACE = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b,
            'floordiv': lambda a, b: a // b, 'lshift': lambda a, b: ('<<', a, b), 'rshift': lambda a, b: ('>>', a, b), 'pow': lambda a, b: ('**', a, b)}
for _n, _f in _INPLACE.items():
    _mk_inplace(_n, _f)


@prop.facet(st.tuples(lst, st.sampled_from(sorted(_INPLACE) + ['call']), st.integers(1, 4), st.integers(1, 3), st.booleans()), 'the sequence is not empty', quick=600)
def multirun(case):
    import operator
    data, what, k, times, no_list = case
    objs = [Ctr(q) for q in data]
    m = S.Multirun(objs, dont_return_list=no_list)
    eq(bool(m), bool(data), 'bool')
    if what == 'call':
        r = m.add(k, times=times)
        want = [q + k * times for q in data]
        if no_list:
            eq(r, None, 'result')
        else:
            eq(r, [Ctr(q) for q in want], 'result')
    else:
        r = getattr(operator, 'i' + what)(m, k)
        check(r is m, 'in-place operation returned something else')
        want = [_INPLACE[what](q, k) for q in data]
    eq([o.v for o in objs], want, 'elements after ' + what)
    return bool(data)
