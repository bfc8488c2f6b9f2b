"""P23: overloading, metaclasses and class decorators select and wrap exactly what they should"""
import abc
import inspect
import itertools

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation

from satella.coding import overload, class_or_instancemethod, TypeSignature, metaclass_maker, wrap_with, dont_wrap, wrap_property, DocsFromParent, CopyDocsFrom

prop = Property('P23')


class A:
    pass


class B(A):
    pass


class C(B):
    pass


class D:
    pass


class BD(B, D):
    pass


TYPES = [object, A, B, C, D, BD, int, bool, str, None]     # None stands for no annotation
VALUES = [A(), B(), C(), D(), BD(), 5, True, 'text', None, object()]
type_i = st.integers(0, len(TYPES) - 1)
related = st.sampled_from([0, 1, 2, 3, 4, 5, 9, 9, 1, 2])
param = st.one_of(related, type_i)
signature = st.tuples(st.lists(param, max_size=3), st.integers(0, 2))


def t(i):
    return object if TYPES[i] is None else TYPES[i]


def fits(sig, values, kw):
    """whether the call is fine with the signature"""
    types, defaults = sig
    if len(values) > len(types):
        return False
    for i, ty in enumerate(types):
        if i < len(values):
            if 'p%d' % i in kw or not isinstance(values[i], t(ty)):
                return False
        elif 'p%d' % i in kw:
            if not isinstance(kw['p%d' % i], t(ty)):
                return False
        elif i < len(types) - defaults:
            return False
    return all(k in ['p%d' % i for i in range(len(types))] for k in kw)


def more_specific(a, b):
    """is a more specific than b"""
    x, y = [t(i) for i in a[0]], [t(i) for i in b[0]]
    return len(x) == len(y) and x != y and all(issubclass(p, q) for p, q in zip(x, y))


def compile_fun(sig, n):
    types, defaults = sig
    space = {'T%d' % i: TYPES[i] for i in range(len(TYPES))}
    parts = ['p%d%s%s' % (i, '' if TYPES[ty] is None else ': T%d' % ty, ' = None' if i >= len(types) - defaults else '') for i, ty in enumerate(types)]
    exec('def f(%s):\n    "doc %d"\n    return %d, %s' % (', '.join(parts), n, n, '[%s]' % ', '.join('p%d' % i for i in range(len(types)))), space)
    return space['f']


guided = st.tuples(st.just('guided'), st.integers(0, 5), st.lists(st.integers(0, 9), min_size=3, max_size=3), st.integers(0, 2))
calls = st.tuples(st.lists(st.integers(0, len(VALUES) - 1), max_size=3), st.dictionaries(st.sampled_from(['p0', 'p1', 'p2']), st.integers(0, len(VALUES) - 1), max_size=1))
sigs = st.one_of(st.lists(signature, min_size=1, max_size=5),
                 st.integers(1, 2).flatmap(lambda n: st.lists(st.tuples(st.lists(related, min_size=n, max_size=n), st.just(0)), min_size=2, max_size=6)))


def call_overloaded(dec, seen, funs, cs):
    ambiguous = 0
    for c in cs:
        if c[0] == 'guided':        # arguments accepted by one of the signatures
            types, defaults = seen[c[1] % len(seen)][0]
            values = [[v for v in VALUES if isinstance(v, t(ty))][c[2][i] % len([v for v in VALUES if isinstance(v, t(ty))])] for i, ty in enumerate(types)]
            kw = {}
            for i in reversed(range(len(values))):
                if len(types) - i <= c[3] and c[2][i] % 2:
                    kw['p%d' % i] = values.pop()
                else:
                    break
        else:
            values = [VALUES[i] for i in c[0]]
            kw = {k: VALUES[i] for k, i in c[1].items()}
        matching = [(s, n) for s, n in seen if fits(s, values, kw)]
        for s, n in seen:
            eq(TypeSignature.from_fun(funs[n]).matches(*values, **kw), (s, n) in matching, 'matching of %s with %r %r' % (inspect.signature(funs[n]), values, kw))
        if not matching:
            raises(TypeError, dec, *values, **kw)
            continue
        n, args = dec(*values, **kw)
        check(n in [m for _, m in matching], 'called a function whose signature does not match')
        mine = next(s for s, m in matching if m == n)
        for s, m in matching:
            check(not more_specific(s, mine), 'called %s, though more specific %s matches %r %r', inspect.signature(funs[n]), inspect.signature(funs[m]), values, kw)
        want = [values[i] if i < len(values) else kw.get('p%d' % i) for i in range(len(mine[0]))]
        check(len(want) == len(args) and all(a is b for a, b in zip(args, want)), 'arguments passed')
        ambiguous += len(matching) > 1
    return ambiguous


@prop.facet(st.tuples(sigs, st.lists(st.one_of(guided, guided, guided, calls), min_size=3, max_size=8), st.lists(st.booleans(), min_size=6, max_size=6)), 'a call matched two signatures', quick=1200)
def overloading(case):
    signatures, cs, early = case
    ambiguous = 0
    seen, dec, funs = [], None, {}
    for n, sig in enumerate(signatures):
        sig = sig[0], min(sig[1], len(sig[0]))
        f = compile_fun(sig, n)
        key = (tuple(sig[0]), sig[1])
        if dec is None:
            dec = overload(f)
            check(dec.__wrapped__ is f and dec.__doc__ == f.__doc__, '__wrapped__ or documentation')
        elif any((tuple(s[0]), s[1]) == key for s, _ in seen):
            raises((TypeError, ValueError), dec.overload, f)
            continue
        else:
            check(dec.overload(f) is dec, 'overload() returned something else')
        seen.append((sig, n))
        funs[n] = f
        if early[n]:        # implementations can be added after calls were made
            ambiguous += call_overloaded(dec, seen, funs, cs)
    eq(sorted(map(id, dec.all_functions)), sorted(map(id, funs.values())), 'functions registered')
    ambiguous += call_overloaded(dec, seen, funs, cs)
    for (s1, n1), (s2, n2) in itertools.product(seen, seen):
        x, y = TypeSignature.from_fun(funs[n1]), TypeSignature.from_fun(funs[n2])
        eq(x < y, more_specific(s2, s1), '%s < %s' % (x, y))
        eq(x.is_more_generic_than(y), more_specific(s2, s1), '%s more generic than %s' % (x, y))
    return ambiguous


@prop.facet(st.tuples(st.sampled_from(['class', 'instance', 'subclass', 'subinstance']), st.lists(st.integers(0, 5), max_size=2), st.dictionaries(st.sampled_from('kl'), st.integers(0, 3))),
            'always', quick=100)
def class_or_instance(case):
    class K:
        @class_or_instancemethod
        def method(self_or_cls, *args, **kwargs):
            return self_or_cls, args, kwargs

    class L(K):
        pass
    o = {'class': lambda: K, 'instance': K, 'subclass': lambda: L, 'subinstance': L}[case[0]]()
    got = o.method(*case[1], **case[2])
    check(got[0] is o, 'called upon %r instead of %r', got[0], o)
    eq(got[1:], (tuple(case[1]), case[2]), 'arguments')
    return True


metas = st.lists(st.lists(st.integers(0, 5), max_size=2), min_size=1, max_size=5)


@prop.facet(st.tuples(metas, st.lists(st.lists(st.integers(0, 5), max_size=2), min_size=1, max_size=3), st.booleans()), 'metaclasses were in conflict', quick=500)
def metaclasses(case):
    """metaclass_maker: the metaclass is derived from metaclasses of all the bases"""
    meta_bases, plan, twice = case
    ms = []
    for i, bases in enumerate(meta_bases):
        bs = []
        for b in bases:
            if b < len(ms) and ms[b] not in bs:
                bs.append(ms[b])
        try:
            ms.append(type('M%d' % i, tuple(bs) or (type,), {'tag%d' % i: i}))
        except TypeError:       # no consistent MRO
            ms.append(type('M%d' % i, (type,), {'tag%d' % i: i}))
    classes = [m('K%d' % i, (), {'attr%d' % i: i}) for i, m in enumerate(ms)]
    conflict = False
    for n, bases in enumerate(plan * (2 if twice else 1)):
        bs = []
        for b in bases:
            b %= len(classes)
            if classes[b] not in bs:
                bs.append(classes[b])
        bs = [b for b in bs if not any(c is not b and issubclass(c, b) for c in bs)]
        needed = []
        for m in [type(b) for b in bs]:
            if m not in needed:
                needed.append(m)
        needed = [m for m in needed if not any(o is not m and issubclass(o, m) for o in needed)]
        try:
            type('Meta', tuple(needed) or (type,), {})
        except TypeError:
            continue        # there cannot be such a metaclass
        new = metaclass_maker('New%d' % n, tuple(bs), {'x': n})
        try:
            type('Plain', tuple(bs), {})
        except TypeError:
            conflict = True
        eq((new.__name__, new.__bases__, new.x), ('New%d' % n, tuple(bs) or (object,), n), 'the class made')
        for b in bs:
            check(issubclass(type(new), type(b)), 'metaclass %r is not derived from %r', type(new).__mro__, type(b))
            check(isinstance(new, type(b)), 'isinstance')
        for i, m in enumerate(ms):
            eq(hasattr(new, 'tag%d' % i), any(issubclass(type(b), m) for b in bs), 'attribute of a metaclass')
        classes.append(new)
    return conflict


member = st.tuples(st.sampled_from(['method', 'method', 'spared', 'property', 'property', 'value', 'callable', 'abstract', 'rwproperty', 'super', 'init']), st.booleans())


class CallableObj:
    def __call__(self, *args):
        return 'object'


@prop.facet(st.tuples(st.lists(member, min_size=1, max_size=6), st.booleans(), st.booleans(), st.booleans(), st.sampled_from(['none', 'abc', 'plain'])), 'something was wrapped and something was not',
            quick=500)
def wrapping(case):
    """wrap_with, dont_wrap, wrap_property"""
    members, wrap_callables, wrap_properties, select, base = case
    kw, log, wraps_log = {}, [], []

    def named(v):
        return getattr(v, '__name__', None) or (v.fget.__name__ if isinstance(v, property) else 'obj')

    if wrap_callables:
        def double(fun):
            wraps_log.append(fun)

            def inner(self, *a):
                return 'wrapped', fun(self, *a)
            inner.__name__ = 'inner'
            return inner
        kw['callables'] = double
    if wrap_properties:
        kw['properties'] = wrap_property(lambda g: lambda self: ('got', g(self)), lambda s: lambda self, v: s(self, ('set', v)), lambda d: lambda self: (log.append('deleting'), d(self)))
    if select:
        kw['selector_callables'] = lambda c: named(c)[-1] in '02468'
        kw['selector_properties'] = lambda c: named(c)[-1] in '02468'

    class Plain:
        def hello(self):
            return 'hello'

    class Abstract(abc.ABC):
        def hello(self):
            return 'hello'

    ns = {}
    for i, (kind, flag) in enumerate(members):
        name = 'm%d' % i
        if kind in ('method', 'spared', 'abstract', 'super'):
            def f(self, *a, _i=i):
                return 'method', _i, a
            f.__name__ = name
            if kind == 'spared':
                f = dont_wrap(f)
            if kind == 'abstract':
                f = abc.abstractmethod(f)
            ns[name] = f
        elif kind in ('property', 'rwproperty'):
            def g(self, _i=i):
                return 'prop', _i
            g.__name__ = name
            if kind == 'property':
                ns[name] = property(g)
            else:
                def s(self, v):
                    log.append(('set', v))

                def d(self):
                    log.append('deleted')
                ns[name] = property(g, s, d)
        elif kind == 'value':
            ns[name] = [i]
        elif kind == 'callable':
            o = CallableObj()
            o.__name__ = name
            ns[name] = o
    bases = {'none': (), 'abc': (Abstract,), 'plain': (Plain,)}[base]
    K = wrap_with(**kw)('K', bases, dict(ns))
    eq((K.__name__, K.__bases__), ('K', bases or (object,)), 'the class')
    has_abstract = any(kind == 'abstract' and not (wrap_callables and (not select or i % 2 == 0)) for i, (kind, _) in enumerate(members))
    if has_abstract:
        raises(TypeError, K)

        class L(K):
            pass
        for i, (kind, _) in enumerate(members):
            if kind == 'abstract':
                setattr(L, 'm%d' % i, K.__dict__['m%d' % i])
        abc.update_abstractmethods(L)
        return False
    wrapped_count, spared = 0, 0
    o = K()
    for i, (kind, flag) in enumerate(members):
        name = 'm%d' % i
        chosen = not select or i % 2 == 0
        if kind in ('method', 'spared', 'abstract', 'super'):
            want = 'method', i, (1,)
            wraps_it = wrap_callables and chosen and kind != 'spared'
            eq(getattr(o, name)(1), ('wrapped', want) if wraps_it else want, 'calling %s %s' % (kind, name))
            if wraps_it:
                eq(len([e for e in wraps_log if e is ns[name]]), 1, 'times wrapped')
                wrapped_count += 1
            else:
                check(K.__dict__[name] is ns[name], '%s was not to be touched', name)
                spared += 1
        elif kind == 'callable':
            if wrap_callables and chosen:
                eq(getattr(o, name)(1), ('wrapped', 'object'), 'calling a callable object')
                wrapped_count += 1
            else:
                check(K.__dict__[name] is ns[name], '%s was not to be touched', name)
        elif kind in ('property', 'rwproperty'):
            wraps_it = wrap_properties and chosen
            eq(getattr(o, name), ('got', ('prop', i)) if wraps_it else ('prop', i), 'reading a property')
            del log[:]
            if kind == 'property':
                raises(AttributeError, setattr, o, name, 5)
                raises(AttributeError, delattr, o, name)
                eq(log, [], 'a read-only property')
            else:
                setattr(o, name, 5)
                delattr(o, name)
                eq(log, [('set', ('set', 5)), 'deleting', 'deleted'] if wraps_it else [('set', 5), 'deleted'], 'setting and deleting')
            wrapped_count += bool(wraps_it)
            spared += not wraps_it
        elif kind == 'value':
            check(K.__dict__[name] is ns[name], 'a value was altered')
            spared += 1
    if bases:
        eq(o.hello(), 'hello', 'inherited method')
    if base == 'abc':
        check(isinstance(o, Abstract), 'isinstance')
    return wrapped_count and spared


doc = st.sampled_from([None, None, 'one', 'two', 'three', ''])
docs = st.one_of(st.dictionaries(st.sampled_from(['__doc__', 'f', 'g', 'h', 'v']), doc, max_size=5),
                 st.fixed_dictionaries({'f': doc, 'g': doc}))


two_branches = st.tuples(docs, docs, docs, docs).map(lambda d: [([], d[0]), ([0], d[1]), ([], d[2]), ([2], d[3])])


@prop.facet(st.tuples(st.one_of(two_branches, st.lists(st.tuples(st.lists(st.integers(0, 3), max_size=2), docs), min_size=1, max_size=4)), docs, st.lists(st.integers(0, 3), min_size=1, max_size=2), st.booleans()),
            'documentation was copied', quick=900)
def documentation(case):
    """DocsFromParent looks the bases up breadth first; CopyDocsFrom in a single class"""
    tree, own, parents, copying = case

    def namespace(d):
        ns = {}
        for k, v in sorted(d.items()):
            if k == '__doc__':
                if v is not None:
                    ns[k] = v
            elif k == 'v':
                ns[k] = 5
            else:
                def f(self):
                    return 'ran'
                f.__doc__ = v
                ns[k] = f
        return ns
    classes = []
    for i, (bases, d) in enumerate(tree):
        bs = []
        for b in bases:
            if b < len(classes) and classes[b] not in bs:
                bs.append(classes[b])
        bs = [b for b in bs if not any(c is not b and issubclass(c, b) for c in bs)]
        try:
            classes.append(type('T%d' % i, tuple(bs), namespace(d)))
        except TypeError:
            classes.append(type('T%d' % i, (), namespace(d)))
    bs = []
    for p in parents:
        c = classes[p % len(classes)]
        if c not in bs:
            bs.append(c)
    bs = [b for b in bs if not any(c is not b and issubclass(c, b) for c in bs)]
    ns = namespace(own)
    originals = {k: getattr(v, '__doc__', None) for k, v in ns.items()}
    if copying:
        order = bs[:1]
        new = CopyDocsFrom(bs[0])('New', (), dict(ns))
    else:
        order, level = [], list(bs)
        while level:
            order += level
            level = [p for c in level for p in c.__bases__ if p is not object]
        try:
            type('New', tuple(bs), {})
        except TypeError:
            return False
        new = DocsFromParent('New', tuple(bs), dict(ns))
        eq(new.__bases__, tuple(bs), 'bases')

    def first(get):
        for c in order:
            if get(c):
                return get(c)
        return None
    copied = 0
    if '__doc__' in ns:
        eq(new.__doc__, ns['__doc__'], 'own documentation of the class')
    else:
        eq(new.__doc__, first(lambda c: c.__doc__), 'documentation of the class')
        copied += bool(new.__doc__)
    for k in ('f', 'g', 'h'):
        if k in ns:
            got = new.__dict__[k].__doc__
            if originals[k]:
                eq(got, originals[k], 'own documentation of %s' % k)
            else:
                want = first(lambda c: getattr(c, k, None).__doc__ if hasattr(c, k) else None)
                eq(got or None, want, 'documentation of %s' % k)
                copied += bool(want)
            eq(new.__dict__[k](None), 'ran', 'the method')
        else:
            check(k not in new.__dict__, '%s appeared', k)
    if 'v' in ns:
        eq(new.__dict__['v'], 5, 'a value')
    return copied
