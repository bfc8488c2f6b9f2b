"""Queues, pushable iterables, zipped sets, vectors, typed tuples, omni, enhanced"""
import collections
import queue
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import PushIterable, Subqueue, SetZip, Vector, typednamedtuple

prop = Property('P10', ['vectors added to each other have the same length'])


item = st.one_of(small, st.sampled_from([None, '', False, 0]))


@prop.facet(st.tuples(st.lists(item, max_size=8), ops(op('pop'), op('pop'), op('push', item), op('push_left', item), op('next'), max_size=30)),
            'an element was pushed while the iterable was not yet consumed', quick=1500)
def push_iterable(case):
    data, program = case
    pi = PushIterable(iter(data))
    rest, buf = list(data), collections.deque()
    nt = False
    for o in program:
        if o[0] in ('pop', 'next'):
            f = pi.pop if o[0] == 'pop' else lambda: next(pi)
            if buf:
                eq(f(), buf.pop(), 'pop of a pushed element')
            elif rest:
                eq(f(), rest.pop(0), 'pop of the iterable')
            else:
                raises(StopIteration, f)
        elif o[0] == 'push':
            pi.push(o[1])
            buf.append(o[1])
            nt = nt or bool(rest)
        else:
            pi.push_left(o[1])
            buf.appendleft(o[1])
            nt = nt or bool(rest)
    eq(list(pi), list(reversed(buf)) + rest, 'what remained')
    return nt


qn = st.sampled_from(['a', 'b', 'c'])


@prop.facet(st.tuples(ops(op('put', qn, item), op('put', qn, item), op('get', qn), op('any'), op('size'), op('assert', qn), max_size=30)),
            'at least two named queues were in use', quick=1500)
def subqueue(case):
    program, = case
    sq = Subqueue()
    model = collections.defaultdict(list)
    used = set()
    for o in program:
        if o[0] == 'put':
            sq.put(o[1], o[2])
            model[o[1]].append(o[2])
            used.add(o[1])
        elif o[0] == 'get':
            if model[o[1]]:
                eq(sq.get(o[1], block=False), model[o[1]].pop(0), 'get')
            else:
                raises(queue.Empty, sq.get, o[1], block=False)
                raises(queue.Empty, sq.get, o[1], timeout=0.0001)
        elif o[0] == 'any':
            if any(model.values()):
                name, v = sq.get_any()
                check(model[name], 'a message came from an empty queue %s', name)
                eq(v, model[name].pop(0), 'get_any from ' + name)
            else:
                raises(queue.Empty, sq.get_any)
        elif o[0] == 'assert':
            sq.assert_queue(o[1])
        eq(sq.qsize(), sum(map(len, model.values())), 'qsize')
    while any(model.values()):
        name, v = sq.get_any()
        eq(v, model[name].pop(0), 'draining')
    raises(queue.Empty, sq.get_any)
    return len(used) > 1


sets = st.lists(st.lists(small, max_size=4, unique=True), max_size=4)


@prop.facet(st.tuples(sets, sets, st.booleans(), st.lists(st.tuples(st.integers(0, 9), small), max_size=4)), 'at least two sets', quick=500)
def set_zip(case):
    a, b, lists, later = case
    conv = list if lists else set
    members = [conv(s) for s in a + b]
    sz = SetZip(*members[:len(a)])
    for s in members[len(a):]:
        sz += s
    for n, x in later:          # it's of sets and not of what they once were
        if members:
            m = members[n % len(members)]
            if x in m:
                m.remove(x)
            elif lists:
                m.append(x)
            else:
                m.add(x)
    everything = [x for s in members for x in s]
    eq(list(sz), everything, 'iteration')
    eq(len(sz), len(everything), 'length')
    for x in range(-4, 10):
        eq(x in sz, x in everything, 'inclusion of %s' % x)
    return len(a + b) > 1


num = st.one_of(st.integers(-9, 9), st.sampled_from([0.5, -1.5]))
vec = st.integers(0, 4).flatmap(lambda n: st.tuples(st.lists(num, min_size=n, max_size=n), st.lists(num, min_size=n, max_size=n)))


@prop.facet(st.tuples(vec, num), 'vectors are not empty', quick=500)
def vector(case):
    (x, y), k = case
    a, b = Vector(x), Vector(y)
    checks = [(a + b, [p + q for p, q in zip(x, y)]), (a - b, [p - q for p, q in zip(x, y)]), (a * k, [p * k for p in x])]
    if k:
        checks.append((a / k, [p / k for p in x]))
    for got, want in checks:
        eq(got, tuple(want), 'vector operation')
        check(type(got) is Vector, 'result is not a Vector')
    c = a
    c += b
    eq(c, a + b, '+=')
    c = a
    c -= b
    eq(c, a - b, '-=')
    c = a
    c *= k
    eq(c, a * k, '*=')
    if k:
        c = a
        c /= k
        eq(c, a / k, '/=')
    eq(a, tuple(x), 'operands are unaltered')
    return bool(x)


TYPES = {'int': int, 'float': float, 'str': str, 'none': None, 'lambda': lambda x: ('conv', x)}


@prop.facet(st.tuples(st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=4), st.lists(st.integers(0, 99), min_size=4, max_size=4),
                      st.lists(st.sampled_from(['as is', 'str', 'float', 'bool']), min_size=4, max_size=4), st.integers(0, 4), st.sampled_from(['exact', 'missing', 'extra', 'extrakw', 'dup'])),
            'a value had to be coerced', quick=800)
def typed_named_tuple(case):
    types, values, forms, positional, variant = case
    names = ['f%s' % i for i in range(len(types))]
    tnt = typednamedtuple('tnt', *((n, TYPES[t]) for n, t in zip(names, types)))
    vals = [{'as is': v, 'str': str(v), 'float': float(v), 'bool': bool(v % 2)}[f] for v, f in zip(values, forms)][:len(types)]
    want = []
    nt = False
    for v, t in zip(vals, types):
        c = TYPES[t]
        if c is None or (isinstance(c, type) and isinstance(v, c)):
            want.append(v)
        else:
            nt = True
            want.append(Outcome.of(c, v))
    bad = any(isinstance(w, tuple) and w[0] == 'exc' for w in want)
    want = [w[1] if isinstance(w, tuple) and w[0] == 'ok' else w for w in want]
    n = min(positional, len(types))
    args, kwargs = vals[:n], dict(zip(names[n:], vals[n:]))
    if variant == 'missing':
        if kwargs:
            kwargs.popitem()
        elif args:
            args.pop()
        raises((TypeError, ValueError), tnt, *args, **kwargs)
        return False
    if variant == 'extrakw':
        kwargs['nosuch'] = 2
        raises((TypeError, ValueError), tnt, *args, **kwargs)
        return False
    if variant == 'dup':
        if not args:
            return False
        kwargs[names[0]] = 2
        raises((TypeError, ValueError), tnt, *args, **kwargs)
        return False
    if variant == 'extra':
        raises((TypeError, ValueError), tnt, *vals, 5)
        return False
    if bad:
        raises(ValueError, tnt, *args, **kwargs)
        return False
    o = tnt(*args, **kwargs)
    eq(tuple(o), tuple(want), 'tuple')
    for name, w in zip(names, want):
        same_type_eq(getattr(o, name), w, name)
    check(isinstance(o, tuple), 'not a tuple')
    check(isinstance(o, tnt), 'not an instance of the class created')
    eq(repr(o), 'tnt(%s)' % ', '.join('%s=%r' % q for q in zip(names, want)), 'repr')
    return nt
