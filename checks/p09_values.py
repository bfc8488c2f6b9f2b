"""Value semantics: immutability, equality, hashing, comparison, singletons"""
import gc
import random
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import frozendict, Immutable, DictionaryEQAble, ComparableAndHashableBy, \
    ComparableAndHashableByInt, ComparableAndHashableByStr, OmniHashableMixin, HashableMixin, StrEqHashableMixin, \
    ReprableMixin, Singleton, SingletonWithRegardsTo, get_instances_for_singleton, delete_singleton_for, \
    ComparableIntEnum, ComparableEnum, HashableWrapper, NOT_EQUAL_TO_ANYTHING, HashableIntEnum, OnStrOnlyName

prop = Property('P09', ['field values are hashable and comparable'])
kv = st.lists(st.tuples(st.integers(0, 5), st.one_of(st.integers(0, 3), st.text('ab', max_size=2), st.just((1, 2)))), max_size=5)

MUTATORS = {
    'set': lambda d: d.__setitem__(1, 2), 'set2': lambda d: exec('d[9] = 1', {'d': d}),
    'del': lambda d: d.__delitem__(next(iter(d), 1)), 'update': lambda d: d.update({7: 7}),
    'update_kw': lambda d: d.update(a=2), 'pop': lambda d: d.pop(next(iter(d), 1)), 'popd': lambda d: d.pop(1, None),
    'popitem': lambda d: d.popitem(), 'clear': lambda d: d.clear(), 'setdefault': lambda d: d.setdefault(8, 9),
    'ior': lambda d: exec('d |= {11: 2}', {'d': d}),
}


@prop.facet(st.tuples(kv, kv, st.integers(0, 1000), st.sampled_from(sorted(MUTATORS))), 'the dictionary is not empty', quick=1200)
def frozen_dict(case):
    a, b, rnd, mut = case
    da, db = dict(a), dict(b)
    fa = frozendict(da)
    shuffled = list(da.items())
    random.Random(rnd).shuffle(shuffled)
    fa2 = frozendict(shuffled)
    fb = frozendict(db)
    check(fa == fa2 and hash(fa) == hash(fa2), 'equal frozendicts hash differently')
    eq(fa == fb, da == db, 'equality')
    eq(fa == da, True, 'equality with a dict')
    if fa == fb:
        eq(hash(fa), hash(fb), 'hash')
    eq(len({fa, fa2, fb}), 1 if da == db else 2, 'a set of frozendicts')
    h = hash(fa)
    try:
        MUTATORS[mut](fa)
    except (TypeError, AttributeError, KeyError):
        failed = True
    else:
        failed = False
    eq(dict(fa), da, 'content after an attempt to alter it by ' + mut)
    eq(list(fa), list(da), 'keys')
    eq(hash(fa), h, 'hash after an attempt to alter it by ' + mut)
    check(failed or mut in ('popd',) and 1 not in da, 'altering by %s did not fail', mut)
    if da:
        raises(TypeError, lambda: MUTATORS[mut](fa)) if mut != 'popd' or 1 in da else None
    for k in range(6):
        eq(fa.get(k, 'none'), da.get(k, 'none'), 'get')
    return bool(da)


@prop.facet(st.tuples(st.lists(st.tuples(st.sampled_from('abc'), small), max_size=4), st.booleans(),
                      st.lists(st.tuples(st.sampled_from(['set', 'del']), st.sampled_from('abcd'), small), max_size=5), st.booleans()),
            'an attribute assigned by the constructor was attempted to be altered', quick=600)
def immutable(case):
    attrs, slots, attempts, inherit = case
    fields = sorted({n for n, _ in attrs})

    def init(self):
        for n, v in attrs:
            setattr(self, n, v)
    ns = {'__init__': init}
    if slots:
        ns['__slots__'] = tuple(fields)
    cls = type(Immutable)('C', (Immutable,), ns)
    if inherit:
        cls = type(Immutable)('D', (cls,), {'__slots__': ()})
    o = cls()
    want = dict(attrs)
    nt = False
    for kind, n, v in attempts:
        nt = nt or n in want
        if kind == 'set':
            raises((TypeError, AttributeError) if n not in want else TypeError, setattr, o, n, v)
        else:
            raises((TypeError, AttributeError) if n not in want else TypeError, delattr, o, n)
        for m in fields:
            eq(getattr(o, m), want[m], 'attribute ' + m)
        eq(hasattr(o, n), n in want, 'presence of attribute ' + n)
    return nt


class ByField(ComparableAndHashableBy):
    _COMPARABLE_BY = 'f'

    def __init__(self, f, g=0):
        self.f, self.g = f, g


class ByProp(ComparableAndHashableBy):
    _COMPARABLE_BY = 'neg'

    def __init__(self, f, g=0):
        self.f, self.g = -f, g

    @property
    def neg(self):
        return -self.f


class ByInt(ComparableAndHashableByInt):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __int__(self):
        return self.f


class ByStr(ComparableAndHashableByStr):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __str__(self):
        return '%04d' % (self.f + 100)


class StrEq(StrEqHashableMixin):
    def __init__(self, f, g=0):
        self.f, self.g = f, g

    def __str__(self):
        return 'x%s' % self.f


@prop.facet(st.tuples(st.sampled_from([ByField, ByProp, ByInt, ByStr, StrEq]), small, small, small, small), 'the keys are equal or differ by one', quick=800)
def comparable_by(case):
    cls, x, y, g1, g2 = case
    a, b = cls(x, g1), cls(y, g2)
    eq(a == b, x == y, '==')
    eq(a != b, x != y, '!=')
    if x == y:
        eq(hash(a), hash(b), 'hash')
    eq(len({a, b}), 1 if x == y else 2, 'set of both')
    if cls is not StrEq:
        eq((a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y), 'ordering')
        eq([q.f for q in sorted([a, b])], [q.f for q in sorted([a, b], key=lambda q: {ByProp: -q.f}.get(cls, q.f))], 'sorting')
    if cls is ByStr:
        eq(a == str(b), x == y, 'comparison to a string')
        eq(hash(a), hash(str(a)), 'hash as of the string')
    return abs(x - y) <= 1


class Omni(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('x', 'y')

    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z

    def __repr__(self):
        return '%s%r' % (type(self).__name__, (self.x, self.y, self.z))


class OmniStr(Omni):
    _HASH_FIELDS_TO_USE = 'x'


class DEq(DictionaryEQAble):
    pass


class DEq2(DEq):
    pass


fv = st.sampled_from([0, 1, -1, -2, None, '', 1.0])
f3 = st.tuples(fv, fv, st.integers(0, 1))


@prop.facet(st.tuples(f3, f3, st.booleans()), 'the objects differ in at most one field', quick=600)
def omni_hashable(case):
    a, b, single = case
    cls = OmniStr if single else Omni
    oa, ob = cls(*a), cls(*b)
    same = a[0] == b[0] if single else a[:2] == b[:2]
    eq(oa == ob, same, '==')
    eq(ob == oa, same, '== reversed')
    eq(oa != ob, not same, '!=')
    if same:
        eq(hash(oa), hash(ob), 'hash')
    eq(len({oa, ob}), 1 if same else 2, 'set')
    la, lb = cls([a[0]], a[1], a[2]), cls([b[0]], b[1], b[2])       # values that cannot be hashed
    eq(la == lb, same, '== of unhashable fields')
    if same:
        eq(Outcome.of(hash, la), Outcome.of(hash, lb), 'hash of unhashable fields')
    eq(oa == 5, False, 'comparison to something else')
    eq(oa != 5, True, 'comparison to something else')
    return sum(p != q for p, q in zip(a, b)) <= 1


attrs_st = st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.one_of(st.integers(0, 1), st.none()), max_size=3)


@prop.facet(st.tuples(attrs_st, attrs_st, st.booleans()), 'the sets of attributes differ or one value differs', quick=800)
def dictionary_eq(case):
    a, b, other_type = case
    oa, ob = DEq(), (DEq2 if other_type else DEq)()
    oa.__dict__.update(a)
    ob.__dict__.update(b)
    same = a == b and not other_type
    for p, q in ((oa, ob), (ob, oa)):
        eq(p == q, same, '== of %r and %r' % (a, b))
        eq(p != q, not same, '!= of %r and %r' % (a, b))
    eq(oa == oa, True, 'self-equality')
    return a != b


@prop.facet(st.tuples(st.lists(st.integers(0, 2), max_size=4), st.lists(st.integers(0, 2), max_size=4)), 'both objects are equal', quick=300)
def by_identity(case):
    """HashableWrapper, HashableMixin, NOT_EQUAL_TO_ANYTHING"""
    a, b = case
    wa, wa2, wb = HashableWrapper(a), HashableWrapper(a), HashableWrapper(b)
    check(wa == wa2 and hash(wa) == hash(wa2), 'wrappers of the same object differ')
    check(wa == a, 'a wrapper differs from its object')
    check(not (wa == wb), 'wrappers of different objects are equal')
    eq(len({wa, wa2, wb}), 2, 'set of wrappers')
    ta = tuple(a)
    eq(hash(HashableWrapper(ta)), hash(ta), 'hash of a wrapped hashable')
    eq(list(wa), a, 'wrapper as a proxy')

    class H(HashableMixin):
        pass
    x, y = H(), H()
    check(x == x and not (x == y) and x != y and not (x != x), 'equality by id')
    eq(len({x, y, x}), 2, 'set')
    for z in (a, ta, x, None, NOT_EQUAL_TO_ANYTHING):
        eq(NOT_EQUAL_TO_ANYTHING == z, False, 'NOT_EQUAL_TO_ANYTHING ==')
        eq(NOT_EQUAL_TO_ANYTHING != z, True, 'NOT_EQUAL_TO_ANYTHING !=')
    return a == b


@prop.facet(st.tuples(st.dictionaries(st.sampled_from(['A', 'B', 'C']), st.integers(0, 4), min_size=1), st.integers(-1, 5),
                      st.dictionaries(st.sampled_from(['A', 'B', 'C']), st.integers(0, 4), min_size=1)), 'enums share a value', quick=500)
def enums(case):
    import enum
    m1, x, m2 = case
    E = ComparableIntEnum('E', m1)
    F = ComparableIntEnum('F', m2)
    for e in E:
        v = e.value
        eq((e == x, e < x, e <= x, e > x, e >= x), (v == x, v < x, v <= x, v > x, v >= x), 'comparison to an int')
        eq((x == e, x < e, x <= e, x > e, x >= e), (v == x, x < v, x <= v, x > v, x >= v), 'comparison to an int')
        eq(hash(e), hash(v), 'hash')
        eq((e == x + 0.5, e < x + 0.5), (False, v < x + 0.5), 'comparison to a float')
        for f in F:
            w = f.value
            eq((e == f, e < f, e <= f, e > f, e >= f), (v == w, v < w, v <= w, v > w, v >= w), 'comparison across enums')
        for s in (str(x),):
            eq((e < _I(x), e == _I(x), e >= _I(x)), (v < x, v == x, v >= x), 'comparison to an object with int()')
    C1 = ComparableEnum('C1', {k: 'v%s' % v for k, v in m1.items()})
    C2 = ComparableEnum('C2', {k: 'v%s' % v for k, v in m2.items()})
    for e in C1:
        eq(e == 'v%s' % x, e.value == 'v%s' % x, 'comparison to a value')
        eq('v%s' % x == e, e.value == 'v%s' % x, 'comparison to a value')
        for f in C2:
            eq(e == f, e.value == f.value, 'comparison across enums')
        for f in enum.Enum('C3', {k: 'v%s' % v for k, v in m2.items()}):
            eq((e == f, f == e, e != f), (e.value == f.value, e.value == f.value, e.value != f.value), 'comparison to an ordinary enum')
    H = HashableIntEnum('H', m1)
    eq({hash(h) for h in H}, {hash(v) for v in m1.values()}, 'hashes')

    class N(OnStrOnlyName, enum.Enum):
        pass
    M = N('M', m1)
    for m in M:
        eq(str(m), m.name, 'str')
    return bool(set(m1.values()) & set(m2.values()))


class _I:
    def __init__(self, x):
        self.x = x

    def __int__(self):
        return self.x


@prop.facet(st.tuples(st.lists(st.tuples(st.integers(0, 2), st.one_of(st.integers(0, 3), st.just('x')), st.booleans()), max_size=12),
                      st.integers(1, 2), st.booleans(), st.booleans(), st.booleans(), st.booleans()), 'an instance was requested again', quick=800)
def singletons(case):
    """(first argument, second argument, does the constructor fail)"""
    calls, num_args, weak, plain, false, own = case
    inits = []

    class C:
        def __init__(self, a, b, fail=False):
            inits.append((a, b))
            if own:         # one under construction is already the one
                check(deco(a, b, fail=fail) is self, 'another instance was created while constructing one')
            if fail:
                raise ValueError()
            self.a, self.b = a, b

        if false:
            def __len__(self):
                return 0

            def __eq__(self, other):
                return isinstance(other, C)
            __hash__ = None
    deco = Singleton(C) if plain else SingletonWithRegardsTo(num_args, weak_refs=weak)(C)
    alive = {}
    nt = False
    for a, b, fail in calls:
        k = () if plain else (a, b)[:num_args]
        n = len(inits)
        if b == 'x' and not plain:
            # delete it, if there
            if k in alive and num_args == len(k):
                delete_singleton_for(deco, *k)
                del alive[k]
                gc.collect()
                eq(sorted(map(repr, get_instances_for_singleton(deco))), sorted(map(repr, alive)), 'known instances')
            continue
        if k in alive:
            o = deco(a, b, fail=fail)
            check(o is alive[k], 'another instance was created')
            eq(len(inits), n, 'the constructor was called again')
            nt = True
        else:
            try:
                o = deco(a, b, fail=fail)
            except ValueError:
                check(fail, 'unexpected ValueError')
                continue
            check(not fail, 'constructor failed, but an instance was returned')
            eq(len(inits), n + 1, 'calls of the constructor')
            check(isinstance(o, C), 'not an instance')
            check(all(o is not q for q in alive.values()), 'an instance was shared between arguments')
            alive[k] = o
        eq((alive[k].a, alive[k].b), next((p, q) for p, q in reversed(inits) if ((p, q)[:num_args] == k or plain) and (p, q) == (alive[k].a, alive[k].b)), 'attributes')
    if not plain and alive:
        eq(sorted(map(repr, get_instances_for_singleton(deco))), sorted(map(repr, alive)), 'known instances')
        if weak:
            k = next(iter(alive))
            o = None
            del alive[k]
            gc.collect()
            eq(sorted(map(repr, get_instances_for_singleton(deco))), sorted(map(repr, alive)), 'known instances after one was forgotten')
    return nt


@prop.facet(st.tuples(st.lists(st.tuples(ident, st.one_of(small, st.text(max_size=3))), max_size=3, unique_by=lambda q: q[0])), 'there are fields', quick=200)
def reprable(case):
    fields, = case

    class R(ReprableMixin):
        _REPR_FIELDS = tuple(n for n, _ in fields)
    r = R()
    for n, v in fields:
        setattr(r, n, v)
    eq(repr(r), 'R(%s)' % ', '.join(repr(v) for _, v in fields), 'repr')
    return bool(fields)
