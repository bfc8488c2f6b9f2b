"""Deleters, merging of series, numeric and textual transforms"""
import collections
import copy
import enum
import json
from fractions import Fraction
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding import ListDeleter, DictDeleter
from satella.coding import transforms as T
from satella.json import JSONAble

prop = Property('P14', ['series are sorted by their keys; a series to be merged by time has increasing timestamps',
                        'order in which values of equal keys are merged is not specified'])
lst = st.lists(st.integers(0, 5), max_size=10)


@prop.facet(st.tuples(lst, st.lists(st.integers(0, 9)), st.sampled_from(['for', 'next', 'rev', 'rev2', 'exc', 'deque'])), 'something was deleted and something kept', quick=1500)
def list_deleter(case):
    data, marks, mode = case
    marks = set(marks)
    x = list(data)
    seen = []
    if mode in ('rev', 'rev2'):
        ld = reversed(ListDeleter(x))
        if mode == 'rev2':
            ld = reversed(ld)
        order = list(range(len(data))) if mode == 'rev2' else list(reversed(range(len(data))))
    else:
        ld = ListDeleter(x)
        order = list(range(len(data)))

    def loop():
        for pos, v in enumerate(ld):
            check(pos < len(order), 'more elements than the list has: %r', v)
            seen.append(v)
            eq((ld(), ld.value), (v, v), 'current element')
            if order[pos] in marks:
                ld.delete()
            eq(x, data, 'the list during iteration')
    if mode == 'next':
        pos = 0
        while True:
            try:
                v = ld.next()
            except StopIteration:
                break
            seen.append(v)
            if order[pos] in marks:
                ld.delete()
            pos += 1
        eq(x, data, 'the list before removal')
        ld.remove_items()
    elif mode == 'exc':
        with expecting(KeyError):
            with ld:
                loop()
                raise KeyError()
    else:
        with ld as ld2:
            check(ld2 is ld, 'the context manager gave something else')
            loop()
    eq(seen, [data[i] for i in order], 'elements iterated over')
    eq(x, [v for i, v in enumerate(data) if i not in marks], 'the list afterwards')
    return bool(marks & set(range(len(data)))) and len(x) > 0


@prop.facet(st.tuples(st.lists(st.integers(0, 5), min_size=2, max_size=10), st.lists(st.sampled_from(['next', 'next', 'next', 'prev', 'delete', 'copy']), min_size=3, max_size=15), st.booleans()), 'prev was used after next', quick=1000)
def list_deleter_moves(case):
    data, moves, rev = case
    x = list(data)
    ld = ListDeleter(x)
    if rev:
        ld = reversed(ld)
    view = list(reversed(data)) if rev else list(data)
    pos = -1
    marked = set()
    nt = False
    for m in moves:
        if m in ('next', 'prev'):
            # the position is either that of an element, before the first one or past the last one
            pos = min(max(pos + (1 if m == 'next' else -1), -1), len(view))
            if 0 <= pos < len(view):
                eq(getattr(ld, m)(), view[pos], m)
                nt = nt or m == 'prev'
            else:
                raises(StopIteration, getattr(ld, m))
        elif m == 'delete':
            if 0 <= pos < len(view):
                ld.delete()
                marked.add(pos)
        else:
            ld = copy.copy(ld)
    ld.remove_items()
    rest = [v for i, v in enumerate(view) if i not in marked]
    eq(x, list(reversed(rest)) if rev else rest, 'the list afterwards')
    return nt


@prop.facet(st.tuples(st.dictionaries(st.integers(0, 9), small, max_size=8), st.sets(st.integers(0, 9)), st.sampled_from(['items', 'keys', 'values', 'iter']), st.booleans(), st.booleans()), 'something was deleted and something kept', quick=800)
def dict_deleter(case):
    data, marks, mode, fail, twice = case
    d = dict(data)
    seen = []
    by_value = mode == 'values'

    def body():
        with DictDeleter(d) as dd:
            src = {'items': dd.items, 'keys': dd.keys, 'values': dd.values, 'iter': lambda: dd}[mode]()
            if twice:
                for q in src:
                    k = q[0] if mode == 'items' else q
                    if k in marks and k % 2:
                        dd.delete()
            for q in src:
                seen.append(q)
                k = q[0] if mode == 'items' else q
                if k in marks and not (twice and k % 2):
                    dd.delete()
                eq(d, data, 'the dictionary during iteration')
            if fail:
                raise KeyError('x')
    if fail:
        raises(KeyError, body)
    else:
        body()
    eq(seen, {'items': list(data.items()), 'values': list(data.values())}.get(mode, list(data)), 'what was iterated over')
    want = {k: v for k, v in data.items() if (v if by_value else k) not in marks}
    eq(d, want, 'the dictionary afterwards')
    return bool(want) and len(want) < len(data)


entry = st.tuples(st.integers(0, 6), st.one_of(st.integers(0, 3), st.none()))


@prop.facet(st.tuples(st.lists(st.lists(entry, max_size=6).map(lambda x: sorted(x, key=lambda q: q[0])), max_size=4), st.booleans()), 'a key occurred more than once', quick=2000)
def merge_list(case):
    """Values are opaque one-element tuples, merged by concatenation"""
    lists, gens = case
    merged = collections.defaultdict(list)
    for x in lists:
        for k, v in x:
            merged[k].append(v)
    arg = [[(k, Opaque([v])) for k, v in x] for x in lists]
    it = T.merge_list(*(iter(x) if gens else x for x in arg), merge_function=lambda a, b: Opaque(a.x + b.x))
    got = list(it)
    eq([k for k, _ in got], sorted(merged), 'keys')
    for k, v in got:
        eq(sorted(v.x, key=repr), sorted(merged[k], key=repr), 'values merged at %s' % k)
    eq(next(it, 'end'), 'end', 'after the end')
    return any(len(v) > 1 for v in merged.values())


class Opaque:
    def __init__(self, x):
        self.x = x


@prop.facet(st.tuples(st.integers(1000, 3000), st.integers(1, 3)), 'always', quick=3, thorough=20)
def merge_many(case):
    n, k = case
    got = list(T.merge_list(*([(1, 1)] * n for _ in range(k)), merge_function=lambda a, b: a + b))
    eq(got, [(1, n * k)], 'a lot of equal keys')
    return True


series = st.lists(st.tuples(st.integers(0, 12), small), max_size=6, unique_by=lambda q: q[0]).map(sorted)


@prop.facet(st.tuples(st.lists(series, min_size=1, max_size=3), st.booleans()), 'at least two non-empty series with different timestamps', quick=2500)
def merge_series(case):
    ss, gens = case
    got = list(T.merge_series(*(iter(s) if gens else s for s in ss)))
    if any(not s for s in ss):
        eq(got, [], 'merge with an empty series')
        return False
    start = max(s[0][0] for s in ss)
    stamps = sorted({t for s in ss for t, _ in s if t >= start})
    want = [(t, *([v for u, v in s if u <= t][-1] for s in ss)) for t in stamps]
    eq(got, want, 'merged series')
    return len(ss) > 1 and len(stamps) > 1


fr = st.integers(-40, 40).map(lambda n: Fraction(n, 4))


@prop.facet(st.tuples(st.lists(st.tuples(fr, fr), min_size=1, max_size=6, unique_by=lambda q: q[0]).map(sorted), fr, st.booleans()), 'the point lies strictly between two known ones', quick=1500)
def linear_interpolate(case):
    s, t, clip = case
    if t < s[0][0] or t > s[-1][0]:
        if clip:
            eq(T.linear_interpolate(s, t, clip=True), s[0][1] if t < s[0][0] else s[-1][1], 'clipped value')
        else:
            raises(ValueError, T.linear_interpolate, s, t)
        return False
    got = T.linear_interpolate(s, t, clip=clip)
    for (t1, v1), (t2, v2) in zip(s, s[1:] or s):
        if t1 <= t <= t2:
            want = v1 if t1 == t2 else v1 + (v2 - v1) * (t - t1) / (t2 - t1)
            break
    else:
        want = s[0][1]
    eq(got, want, 'interpolated value')
    for u, v in s:
        eq(T.linear_interpolate(s, u), v, 'value at a known point')
    return t not in dict(s)


@prop.facet(st.tuples(st.lists(fr, min_size=1, max_size=9).map(sorted), st.integers(0, 24).map(lambda n: Fraction(n, 24))), 'falls between two elements', quick=1000)
def percentile(case):
    x, p = case
    k = (len(x) - 1) * p
    lo = int(k)
    want = x[lo] if k == lo else x[lo] + (x[lo + 1] - x[lo]) * (k - lo)
    eq(T.percentile(x, p), want, 'percentile %s' % p)
    return k != lo


class E(enum.Enum):
    A = 1
    B = 'b'
    C = (1, 2)


class J(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'v': self.v}


class BadStr:
    def __str__(self):
        raise ValueError('no')

    def __repr__(self):
        return 'BadStr'


scalar = st.one_of(st.integers(-9, 9), st.floats(allow_nan=False, allow_infinity=False, width=16), st.text('ab"', max_size=3), st.none(), st.booleans(),
                   st.sampled_from(['E.A', 'E.B', 'E.C', 'obj', 'badstr', 'complex']).map(lambda q: ('@', q)))
plain_key = st.one_of(st.text('ab', max_size=2), st.integers(0, 3), st.sampled_from(['E.A', 'E.B', 'E.C', 'tuple']).map(lambda q: ('@', q)))
nested = st.recursive(scalar, lambda c: st.one_of(st.lists(c, max_size=3), st.lists(st.tuples(plain_key, c), max_size=3).map(lambda q: ('D', q)),
                                                  c.map(lambda q: ('J', q)), st.lists(c, max_size=2).map(lambda q: ('S', q)), st.lists(c, max_size=2).map(lambda q: ('G', q))), max_leaves=8)
SPECIAL = {'E.A': E.A, 'E.B': E.B, 'E.C': E.C, 'obj': Fraction(1, 2), 'badstr': BadStr(), 'complex': 2j, 'tuple': (1, 2)}


def build(x):
    if isinstance(x, list):
        return [build(q) for q in x]
    if isinstance(x, tuple):
        tag, arg = x
        if tag == '@':
            return SPECIAL[arg]
        if tag == 'D':
            return {build(k): build(v) for k, v in arg}
        if tag == 'J':
            return J(build(arg))
        if tag == 'S':
            return tuple(build(q) for q in arg)
        if tag == 'G':
            return (build(q) for q in arg)
    return x


def same_json(got, x):
    """Is got what x should have been turned to? (keys are checked for plain ones only)"""
    if isinstance(x, list):
        check(type(got) is list and len(got) == len(x), 'list expected, got %r', got)
        for g, q in zip(got, x):
            same_json(g, q)
    elif isinstance(x, tuple):
        tag, arg = x
        if tag == '@':
            s = SPECIAL[arg]
            if arg == 'E.C':
                eq(list(got), [1, 2], 'enum')
            elif isinstance(s, enum.Enum):
                eq(got, s.value, 'enum')
            elif arg == 'badstr':
                eq(got, 'BadStr', 'object whose str() fails')
            else:
                eq(got, str(s), 'an object')
        elif tag == 'D':
            check(type(got) is dict, 'dict expected, got %r', got)
            d = {build(k): v for k, v in arg}
            keys = {}
            for k, v in d.items():
                if isinstance(k, (str, int)):
                    keys[k] = v
            clash = {1, 'b'} & set(keys)
            for k, v in keys.items():
                check(k in got, 'key %r is missing', k)
                if k not in clash:
                    same_json(got[k], v)
        elif tag == 'J':
            check(set(got) == {'v'}, 'JSONAble')
            same_json(got['v'], arg)
        else:
            same_json(got, list(arg))
    else:
        same_type_eq(got, x, 'scalar')


@prop.facet(st.tuples(nested), 'nested structure', quick=2000)
def jsonify(case):
    x, = case
    got = T.jsonify(build(x))
    s = json.dumps(got)
    json.loads(s)
    same_json(got, x)
    return isinstance(x, (list, tuple)) and len(x) > 0


simple = st.recursive(st.one_of(st.integers(0, 99), st.text('ab', max_size=2), st.none(), st.just(('@', 'E.A'))), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.one_of(st.integers(0, 9), st.text('xy', min_size=1, max_size=2)), c, max_size=3)), max_leaves=8)


@prop.facet(st.tuples(simple, st.booleans(), st.sampled_from(['str', 'tag'])), 'nested structure', quick=1200)
def stringify(case):
    x, str_none, how = case
    f = str if how == 'str' else (lambda q: '<%s>' % (q,))

    def b(q):
        if isinstance(q, tuple):
            return E.A
        if isinstance(q, list):
            return [b(z) for z in q]
        if isinstance(q, dict):
            return {k: b(v) for k, v in q.items()}
        return q

    def model(q):
        if isinstance(q, str):
            return q
        if q is E.A:
            return 'A'
        if isinstance(q, list):
            return [model(z) for z in q]
        if isinstance(q, dict):
            return {model(k): model(v) for k, v in q.items()}
        if q is None:
            return f(None) if str_none else None
        return f(q)
    arg = b(x)
    ref = copy.deepcopy(arg)
    eq(T.stringify(arg, f, recursively=True, str_none=str_none), model(arg), 'stringify')
    eq(arg, ref, 'the argument')
    flat = [1, 2.5, -3]
    eq(T.stringify(flat, f), [f(q) for q in flat], 'flat list')
    eq(T.stringify({1: 2}, f), {f(1): f(2)}, 'flat dict')
    return isinstance(x, (list, dict)) and len(x) > 0


class Sized:
    def __len__(self):
        return 4


@prop.facet(st.tuples(st.one_of(st.none(), st.integers(-99, 99), st.floats(), st.text('1a', max_size=3), st.lists(small, max_size=3), st.booleans(), st.sampled_from(['sized', 'obj'])),
                      small, small, small, lst, st.integers(1, 5), st.integers(0, 3)), 'conversion needed', quick=1500)
def small_ones(case):
    v, a, b, c, data, n, th = case
    obj = Sized() if v == 'sized' else object() if v == 'obj' else v
    if v is None:
        want = ('ok', 0)
    else:
        try:
            want = ('ok', int(obj))
        except Exception:
            want = ('ok', len(obj)) if hasattr(obj, '__len__') else ('exc', ValueError)
    eq(Outcome.of(T.intify, obj), want, 'intify')
    lo, hi = min(a, b), max(a, b)
    eq(T.clip(c, lo, hi), sorted([lo, c, hi])[1], 'clip')
    check(T.none_if_false(obj) is (obj if obj else None), 'none_if_false')
    got = T.pad_to_multiple_of_length(data, n, pad_with='p')
    eq(got, data + ['p'] * (-len(data) % n), 'padding')
    eq(T.pad_to_multiple_of_length(tuple(data), n, pad_with_factory=lambda: 'f'), data + ['f'] * (-len(data) % n), 'padding by a factory')
    raises(ValueError, T.pad_to_multiple_of_length, data, n, pad_with=1, pad_with_factory=int)
    eq(list(T.one_tuple(data)), [(q,) for q in data], 'one_tuple')
    for front in (True, False):
        orig = list(data)
        got = T.split_shuffle_and_join(data, lambda q: q > th, front)
        kept = [q for q in data if q <= th]
        part, shuf = (got[:len(kept)], got[len(kept):]) if front else (got[len(got) - len(kept):], got[:len(got) - len(kept)])
        eq(part, kept, 'not shuffled')
        eq(sorted(shuf), sorted(q for q in data if q > th), 'shuffled')
        eq(data, orig, 'argument')
    h = T.hashables_to_int(data)
    eq((set(h), sorted(h.values())), (set(data), list(range(len(set(data))))), 'hashables_to_int')
    if len(set(data)) == len(data):
        eq(T.list_values_to_indices(data), {q: i for i, q in enumerate(data)}, 'list_values_to_indices')
    else:
        raises(ValueError, T.list_values_to_indices, data)
    d1 = dict(enumerate(data))
    d2 = {k: q for k, q in d1.items() if (k + th) % 2}
    eq(T.is_subset(d2, d1), True, 'is_subset')
    eq(T.is_subset(d1, d2), d1 == d2, 'is_subset')
    if d1:
        d3 = dict(d2)
        d3[0] = 'other'
        eq(T.is_subset(d3, d1), False, 'is_subset')
    import base64
    raw = bytes(q % 256 for q in data)
    eq(base64.b64decode(T.b64encode(raw)), raw, 'b64encode')
    keys = [a, b, c]
    dd = {k: k * 2 for k in (a, b)}
    eq(list(T.unpack_dict(dd, *keys, map_through=str, raise_if_not_found=False)), [str(dd[k]) if k in dd else None for k in keys], 'unpack_dict')
    if c not in dd:
        raises(KeyError, lambda: list(T.unpack_dict(dd, *keys)))
    else:
        eq(list(T.unpack_dict(dd, *keys)), [dd[k] for k in keys], 'unpack_dict')
    return v is not None and not isinstance(v, int)
