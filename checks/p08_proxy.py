import copy
import math
import operator
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import Proxy

prop = Property('P08', ['where the plain operation raises TypeError, AttributeError is accepted as well'])
num = st.one_of(st.integers(-20, 20), st.sampled_from([0.5, -2.5, 3.5, 7.25, 1.0, True]))
obj = st.one_of(num, num, num, st.text('ab1 ', max_size=4), st.lists(st.integers(0, 4), max_size=4),
                st.frozensets(st.integers(0, 4), max_size=4), st.sets(st.integers(0, 4), max_size=4),
                st.dictionaries(st.integers(0, 3), st.integers(0, 3), max_size=3), st.binary(max_size=3))

ARITH = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift', 'rshift', 'and_', 'or_', 'xor', 'pow', 'matmul']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
OTHER2 = ['contains', 'getitem']
UNARY_W = ['neg', 'pos', 'invert', 'abs']
PLAIN_UNARY = {'int': int, 'float': float, 'complex': complex, 'str': str, 'repr': repr, 'hash': hash, 'bool': bool,
               'len': len, 'list': list, 'reversed': lambda x: list(reversed(x)), 'oct': oct, 'hex': hex,
               'index': operator.index, 'format': format, 'dir': dir, 'sorted': sorted, 'iter': lambda x: list(iter(x))}
WRAPPED_UNARY = {'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                 'round1': lambda x: round(x, 1), 'round0': lambda x: round(x, 0), 'roundm1': lambda x: round(x, -1)}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'truediv': operator.itruediv,
           'floordiv': operator.ifloordiv, 'mod': operator.imod, 'lshift': operator.ilshift, 'rshift': operator.irshift,
           'and_': operator.iand, 'or_': operator.ior, 'xor': operator.ixor, 'pow': operator.ipow,
           'matmul': operator.imatmul}


def bounded(name, x, y):
    """Keep results small"""
    if name in ('pow', 'lshift'):
        for q in (x, y):
            if isinstance(q, (int, float)) and abs(q) > 12:
                return False
    return True


def agree(got, want, what):
    if want[0] == 'exc':
        check(got[0] == 'exc', '%s: got %r, the plain object raises %r', what, got, want[1])
        ok = got[1] is want[1] or (want[1] is TypeError and got[1] is AttributeError)
        check(ok, '%s: raised %r, the plain object raises %r', what, got[1], want[1])
    else:
        check(got[0] == 'ok', '%s: raised %r, the plain object gives %r', what, got[1], want[1])
        if want[1] != want[1]:
            return
        same_type_eq(got[1], want[1], what)


def unwrap(out, wrap, what):
    if out[0] == 'exc':
        return out
    check(isinstance(out[1], Proxy) == wrap, '%s: result %r is%s a Proxy', what, type(out[1]), ' not' if wrap else '')
    return ('ok', out[1]._get_object()) if wrap else out


@prop.facet(st.tuples(obj, obj, st.booleans(), st.booleans(), st.sampled_from(ARITH)),
            'the operation is defined for the operands', quick=2500)
def binary(case):
    x, y, wrap, both, name = case
    if not bounded(name, x, y):
        return False
    f = getattr(operator, name)
    want = Outcome.of(f, copy.copy(x), copy.copy(y))
    pr = Proxy(copy.copy(x), wrap_operations=wrap)
    other = Proxy(copy.copy(y)) if both else copy.copy(y)
    if not both:
        agree(unwrap(Outcome.of(f, pr, other), wrap, name), want, 'proxy %s plain' % name)
        if not (name == 'mod' and isinstance(x, (str, bytes))):    # str handles the right operand by itself
            pr2 = Proxy(copy.copy(y), wrap_operations=wrap)
            got = Outcome.of(f, copy.copy(x), pr2)
            if want[0] == 'ok' and not (isinstance(x, (list, str, bytes)) and name == 'mul'):
                agree(unwrap(got, wrap, name), want, 'plain %s proxy' % name)
            elif want[0] == 'exc':
                check(got[0] == 'exc', 'plain %s proxy gave %r', name, got)
    else:
        got = Outcome.of(f, pr, other)
        if want[0] == 'ok' and not wrap:
            if not (name == 'mod' and isinstance(x, (str, bytes))) and not (isinstance(x, (list, str, bytes)) and name == 'mul'):
                agree(got, want, 'proxy %s proxy' % name)
    return want[0] == 'ok'


@prop.facet(st.tuples(obj, obj, st.sampled_from(CMP + OTHER2)), 'the comparison is defined for the operands', quick=1500)
def comparison(case):
    x, y, name = case
    f = getattr(operator, name)
    want = Outcome.of(f, x, y)
    agree(Outcome.of(f, Proxy(x), y), want, name)
    if name in CMP:
        agree(Outcome.of(f, x, Proxy(y)), want, name + ' reflected')
        agree(Outcome.of(f, Proxy(x), Proxy(y)), want, name + ' of proxies')
    return want[0] == 'ok'


@prop.facet(st.tuples(obj, st.booleans(), st.sampled_from(UNARY_W + list(PLAIN_UNARY) + list(WRAPPED_UNARY))),
            'the operation is defined for the operand', quick=2500)
def unary(case):
    x, wrap, name = case
    if name in PLAIN_UNARY:
        f = PLAIN_UNARY[name]
        want = Outcome.of(f, x)
        agree(Outcome.of(f, Proxy(x, wrap_operations=wrap)), want, name)
    else:
        f = WRAPPED_UNARY.get(name) or getattr(operator, name)
        want = Outcome.of(f, x)
        agree(unwrap(Outcome.of(f, Proxy(x, wrap_operations=wrap)), wrap, name), want, name)
    return want[0] == 'ok'


@prop.facet(st.tuples(obj, st.lists(st.tuples(st.sampled_from(sorted(INPLACE)), obj), min_size=1, max_size=5)),
            'at least one in-place operation was defined', quick=2000)
def inplace(case):
    x, steps = case
    x = copy.copy(x)
    mine = copy.copy(x)
    pr = start = Proxy(mine)
    plain = x
    nt = False
    for name, y in steps:
        if not bounded(name, plain, y) or (isinstance(plain, (int, float)) and abs(plain) > 10 ** 6):
            continue
        f = INPLACE[name]
        before = plain
        want = Outcome.of(f, plain, copy.copy(y))
        mine_before = pr._get_object()
        got = Outcome.of(f, pr, copy.copy(y))
        if want[0] == 'exc':
            agree(got, want, 'in-place ' + name)
            continue
        check(got[0] == 'ok', 'in-place %s raised %r', name, got[1])
        plain = want[1]
        check(got[1] is start, 'in-place %s returned something else than the proxy', name)
        pr = got[1]
        same_type_eq(pr._get_object(), plain, 'value after in-place ' + name)
        eq(pr._get_object() is mine_before, plain is before, 'identity of the wrapped object')
        nt = True
    return nt


@prop.facet(st.tuples(st.one_of(st.lists(st.integers(0, 3), max_size=5), st.dictionaries(st.integers(0, 4), st.integers(0, 3), max_size=4)),
                      ops(op('set', st.integers(-2, 4), st.integers(0, 9)), op('del', st.integers(-2, 4)), op('get', st.integers(-2, 4)),
                          op('len'), op('method'), max_size=10)), 'an item was changed through the proxy', quick=800)
def items(case):
    x, program = case
    mine, plain = copy.copy(x), copy.copy(x)
    pr = Proxy(mine)
    nt = False
    for o in program:
        if o[0] == 'set':
            a, b = Outcome.of(operator.setitem, pr, o[1], o[2]), Outcome.of(operator.setitem, plain, o[1], o[2])
            nt = nt or b[0] == 'ok'
        elif o[0] == 'del':
            a, b = Outcome.of(operator.delitem, pr, o[1]), Outcome.of(operator.delitem, plain, o[1])
        elif o[0] == 'get':
            a, b = Outcome.of(operator.getitem, pr, o[1]), Outcome.of(operator.getitem, plain, o[1])
        elif o[0] == 'len':
            a, b = ('ok', len(pr)), ('ok', len(plain))
        else:
            a, b = Outcome.of(lambda q: q.pop() if isinstance(plain, list) else q.popitem(), pr), \
                   Outcome.of(lambda q: q.pop() if isinstance(plain, list) else q.popitem(), plain)
        agree(a, b, o[0])
        eq(mine, plain, 'the wrapped object')
    return nt


class Target:
    def __init__(self):
        self.log = []

    def __enter__(self):
        self.log.append('enter')
        return 'entered'

    def __exit__(self, *args):
        self.log.append(args[0])
        return args[0] is KeyError

    def __call__(self, *args, **kwargs):
        return args, kwargs

    def __await__(self):
        async def f():
            return 'awaited'
        return f().__await__()

    async def __aenter__(self):
        return 'aentered'

    async def __aexit__(self, *args):
        return args[0] is KeyError

    def __length_hint__(self):
        return 7

    def __matmul__(self, other):
        return ('matmul', other)

    def __rmatmul__(self, other):
        return ('rmatmul', other)


@prop.facet(st.tuples(st.lists(st.tuples(st.sampled_from(['set', 'get', 'del', 'has']), st.sampled_from(['a', 'b', 'log2']), small), max_size=12),
                      st.lists(small, max_size=3), st.dictionaries(ident, small, max_size=2)),
            'an attribute was set through the proxy', quick=500)
def attributes(case):
    program, args, kwargs = case
    t, ref = Target(), Target()
    pr = Proxy(t)
    nt = False
    for kind, name, v in program:
        if kind == 'set':
            setattr(pr, name, v)
            setattr(ref, name, v)
            nt = True
        elif kind == 'get':
            agree(Outcome.of(getattr, pr, name), Outcome.of(getattr, ref, name), 'getattr')
        elif kind == 'del':
            agree(Outcome.of(delattr, pr, name), Outcome.of(delattr, ref, name), 'delattr')
        else:
            eq(hasattr(pr, name), hasattr(ref, name), 'hasattr')
        eq(t.__dict__, ref.__dict__, 'attributes of the wrapped object')
    eq(pr(*args, **kwargs), (tuple(args), kwargs), 'call')
    with pr as z:
        eq(z, 'entered', 'enter')
    with pr:
        raise KeyError()
    with expecting(ValueError):
        with pr:
            raise ValueError()
    eq(t.log, ['enter', None, 'enter', KeyError, 'enter', ValueError], 'context manager')

    async def co():
        async with pr as q:
            eq(q, 'aentered', 'aenter')
            raise KeyError()

    async def co2():
        return await pr
    _run(co())
    eq(_run(co2()), 'awaited', 'await')
    eq(operator.length_hint(pr), 7, 'length hint')
    eq(pr @ 5, ('matmul', 5), 'matmul')
    eq(5 @ pr, ('rmatmul', 5), 'rmatmul')
    it = Proxy(iter([1, 2]))
    eq((next(it), next(it), next(it, 'end')), (1, 2, 'end'), 'next')
    eq(divmod(Proxy(17), 5), (3, 2), 'divmod')
    eq(divmod(17, Proxy(5)), (3, 2), 'divmod')
    eq(pow(Proxy(3), 4, 5), 1, 'modular power')
    return nt


def _run(coro):
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
