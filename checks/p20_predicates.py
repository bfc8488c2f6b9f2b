"""P20: predicates, source expressions and structures of predicates evaluate as the expressions they spell"""
import operator
from collections import Counter

from hypothesis import strategies as st

from harness import Property, check, eq, Trivial, Violation

from satella.coding import source_to_function
from satella.coding.decorators import short_none
from satella.coding.predicates import x, build_structure, PredicateClass
from satella.coding.structures import HashableWrapper

prop = Property('P20')


class Obj:
    def __init__(self, fi, se):
        self.fi = fi
        self.se = se

    def __eq__(self, other):
        if not isinstance(other, Obj):
            return NotImplemented
        return (self.fi, self.se) == (other.fi, other.se)

    def __hash__(self):
        return 5

    def __repr__(self):
        return 'Obj(%r, %r)' % (self.fi, self.se)

    def __matmul__(self, other):
        return ('mat', self, other)

    def __rmatmul__(self, other):
        return ('rmat', self, other)

    def both(self):
        return [self.fi, self.se]


scalar = st.one_of(st.integers(-4, 6), st.booleans(), st.sampled_from([0.5, -2.0, 3.0]), st.sampled_from(['', 'a', 'ab', '12', 'Ba']), st.none())
value = st.one_of(scalar, st.integers(-4, 6), st.lists(scalar, max_size=3), st.lists(scalar, max_size=3).map(tuple),
                  st.dictionaries(st.sampled_from(['a', 'b', 0, 1]), scalar, max_size=3),
                  st.frozensets(st.integers(0, 4), max_size=3), st.builds(lambda a, b: ('obj!', a, b), scalar, scalar))


def real(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'obj!':
        return Obj(v[1], v[2])
    return v


BIN = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge, '+': operator.add,
       '-': operator.sub, '*': operator.mul, '@': operator.matmul, '&': operator.and_, '|': operator.or_, '>>': operator.rshift,
       '<<': operator.lshift, '^': operator.xor, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow}
UN = {'neg': operator.neg, 'inv': lambda y: (not y) if isinstance(y, bool) else ~y, 'abs': abs, 'str': str, 'int': int, 'float': float, 'false': lambda y: not y,
      'length': len, 'len': len, 'type': type, 'ident': lambda y: y}
TYPES = [int, str, list, tuple, dict, bool, float, Obj, type(None)]
METHODS = ['upper', 'copy', 'bit_length', 'both', 'title', 'keys', 'fi', 'real']
ATTRS = ['fi', 'se', 'missing']


def exprs(depth):
    leaf = st.just(('x',))
    if depth == 0:
        return leaf
    sub = st.one_of(leaf, exprs(depth - 1))
    number = st.integers(-4, 6)
    return st.one_of(
        st.tuples(st.just('binc'), st.sampled_from(sorted(BIN)), sub, number),
        st.tuples(st.just('rbin'), st.sampled_from(sorted(BIN)), number, sub),
        st.tuples(st.just('bin'), st.sampled_from(['==', '!=', '&', '|', '^', '+', '-', '<']), sub, sub),
        st.tuples(st.just('bin'), st.sampled_from(sorted(BIN)), sub, sub),
        st.tuples(st.just('binc'), st.sampled_from(sorted(BIN)), sub, value),
        st.tuples(st.just('rbin'), st.sampled_from(sorted(BIN)), value, sub),
        st.tuples(st.just('un'), st.sampled_from(sorted(UN)), sub),
        st.tuples(st.just('attr'), st.sampled_from(ATTRS), sub),
        st.tuples(st.just('item'), st.one_of(st.integers(-2, 2), st.sampled_from(['a', 'b'])), sub),
        st.tuples(st.just('itemp'), sub, sub),
        st.tuples(st.just('call'), st.sampled_from(METHODS), sub),
        st.tuples(st.just('has_keys'), st.lists(st.sampled_from(['a', 'b', 0, 1]), max_size=2).map(tuple), sub),
        st.tuples(st.just('one_of'), st.lists(scalar, max_size=3).map(tuple), sub),
        st.tuples(st.just('inside'), scalar, sub),
        st.tuples(st.just('instanceof'), st.integers(0, len(TYPES) - 1), sub),
        st.tuples(st.just('is_instance'), st.lists(st.integers(0, len(TYPES) - 1), max_size=3).map(tuple), sub),
        st.tuples(st.just('has'), sub, sub),
    )


def number_of(leaf, depth):
    """expressions having a number as the value if leaf has"""
    if depth == 0:
        return leaf
    sub = number_of(leaf, depth - 1)
    n = st.integers(-4, 6)
    ops = st.sampled_from(['+', '-', '*', '&', '|', '^', '+', '-', '//', '%', '/', '**', '<<', '>>'])
    return st.one_of(leaf, st.tuples(st.just('binc'), ops, sub, n), st.tuples(st.just('rbin'), ops, n, sub), st.tuples(st.just('bin'), ops, sub, sub),
                     st.tuples(st.just('un'), st.sampled_from(['neg', 'inv', 'abs', 'int', 'ident', 'float']), sub))


def truth_of(leaf, depth):
    sub = number_of(leaf, depth)
    cmp = st.sampled_from(['==', '!=', '<', '>', '<=', '>='])
    base = st.one_of(st.tuples(st.just('binc'), cmp, sub, st.integers(-4, 6)), st.tuples(st.just('bin'), cmp, sub, sub),
                     st.tuples(st.just('rbin'), cmp, st.integers(-4, 6), sub),
                     st.tuples(st.just('one_of'), st.lists(scalar, max_size=3).map(tuple), sub),
                     st.tuples(st.just('is_instance'), st.lists(st.integers(0, len(TYPES) - 1), max_size=3).map(tuple), sub),
                     st.tuples(st.just('instanceof'), st.integers(0, len(TYPES) - 1), sub), st.tuples(st.just('un'), st.sampled_from(['false']), sub))
    if depth == 0:
        return base
    t = truth_of(leaf, depth - 1)
    return st.one_of(base, st.tuples(st.just('bin'), st.sampled_from(['&', '|', '^', '==']), t, t), st.tuples(st.just('un'), st.sampled_from(['inv', 'false', 'str']), t))


X = st.just(('x',))
ITEM = st.builds(lambda i: ('item', i, ('x',)), st.integers(-1, 0))
LEN = st.builds(lambda i: ('un', i, ('x',)), st.sampled_from(['len', 'length']))
KEY = st.builds(lambda i: ('item', i, ('x',)), st.sampled_from(['a', 'b']))
ATTR = st.builds(lambda i: ('attr', i, ('x',)), st.sampled_from(['fi', 'se']))
nonempty = st.lists(st.integers(-3, 6), min_size=1, max_size=4)
TYPED = st.one_of(
    st.tuples(st.one_of(number_of(X, 3), truth_of(X, 2)), st.lists(st.integers(-4, 9), min_size=1, max_size=4)),
    st.tuples(st.one_of(number_of(st.one_of(ITEM, LEN), 2), truth_of(st.one_of(ITEM, LEN), 1), st.builds(lambda b: ('has', ('x',), b), truth_of(X, 1)),
                        st.builds(lambda v: ('inside', v, ('x',)), st.integers(-3, 6)), st.builds(lambda e: ('itemp', ('x',), e), number_of(LEN, 1))),
              st.lists(nonempty, min_size=1, max_size=4)),
    st.tuples(st.one_of(truth_of(KEY, 1), st.builds(lambda k: ('has_keys', k, ('x',)), st.lists(st.sampled_from(['a', 'b', 0]), max_size=2).map(tuple))),
              st.lists(st.dictionaries(st.sampled_from(['a', 'b', 0]), st.integers(-3, 6), min_size=2), min_size=1, max_size=3)),
    st.tuples(truth_of(ATTR, 1), st.lists(st.builds(lambda a, b: ('obj!', a, b), st.integers(-3, 6), st.integers(-3, 6)), min_size=1, max_size=3)),
)


class TooBig(Exception):
    pass


def sane(v):
    if isinstance(v, int) and abs(v) > 10 ** 9:
        raise TooBig()
    if isinstance(v, float) and abs(v) > 1e12:
        raise TooBig()
    if isinstance(v, (str, list, tuple)) and len(v) > 200:
        raise TooBig()
    return v


def binop(op, a, b):
    if op in ('**', '<<', '*'):
        for v in (a, b):
            if isinstance(v, (int, float)) and abs(v) > 40:
                raise TooBig()
    if op == '%' and isinstance(a, str):
        raise TooBig()
    return sane(BIN[op](a, b))


def model(e, v):
    """The plain evaluation"""
    k = e[0]
    if k == 'x':
        return v
    if k == 'bin':
        return binop(e[1], model(e[2], v), model(e[3], v))
    if k == 'binc':
        return binop(e[1], model(e[2], v), real(e[3]))
    if k == 'rbin':
        return binop(e[1], real(e[2]), model(e[3], v))
    sub = model(e[-1], v) if k not in ('has', 'itemp') else model(e[1], v)
    if k == 'un':
        return UN[e[1]](sub)
    if k == 'attr':
        return getattr(sub, e[1])
    if k == 'item':
        return sub[e[1]]
    if k == 'itemp':
        return sub[model(e[2], v)]
    if k == 'call':
        return getattr(sub, e[1])()
    if k == 'has_keys':
        return all(key in sub for key in e[1])
    if k == 'one_of':
        return sub in e[1]
    if k == 'inside':
        return e[1] in sub
    if k == 'instanceof':
        return isinstance(sub, TYPES[e[1]])
    if k == 'is_instance':
        return isinstance(sub, tuple(TYPES[i] for i in e[1]))
    if k == 'has':
        for element in sub:
            if model(e[2], element):
                return True
        return False
    raise ValueError(k)


def pred(e, memo):
    """The predicate"""
    if repr(e) in memo:
        return memo[repr(e)]
    k = e[0]
    if k == 'x':
        p = x
    elif k == 'bin':
        p = BIN[e[1]](pred(e[2], memo), pred(e[3], memo))
    elif k == 'binc':
        p = BIN[e[1]](pred(e[2], memo), real(e[3]))
    elif k == 'rbin':
        if isinstance(real(e[2]), str) and e[1] == '%':
            raise TooBig()
        if isinstance(real(e[2]), Obj) and e[1] == '@':
            raise TooBig()
        p = BIN[e[1]](real(e[2]), pred(e[3], memo))
    else:
        sub = pred(e[-1] if k not in ('has', 'itemp') else e[1], memo)
        if k == 'un':
            p = {'neg': lambda: -sub, 'inv': lambda: ~sub, 'abs': lambda: abs(sub), 'ident': sub.identity}.get(e[1]) or getattr(sub, e[1])
            p = p()
        elif k == 'attr':
            p = getattr(sub, e[1])
        elif k == 'item':
            p = sub[e[1]]
        elif k == 'itemp':
            p = sub[pred(e[2], memo)]
        elif k == 'call':
            p = getattr(sub, e[1])()
        elif k == 'has_keys':
            p = sub.has_keys(*e[1])
        elif k == 'one_of':
            p = sub.one_of(*e[1])
        elif k == 'inside':
            p = sub.inside(e[1])
        elif k == 'instanceof':
            p = sub.instanceof(TYPES[e[1]])
        elif k == 'is_instance':
            p = sub.is_instance(*(TYPES[i] for i in e[1]))
        elif k == 'has':
            p = sub.has(pred(e[2], memo))
    check(isinstance(p, PredicateClass), '%r made %r instead of a predicate', e, p)
    memo[repr(e)] = p
    return p


def outcome(fun, *args):
    try:
        v = fun(*args)
        if isinstance(v, PredicateClass):
            return 'predicate', None
        return type(v), (list(v) if isinstance(v, type({}.keys())) else v)
    except TooBig:
        raise
    except Exception as e:
        return 'exception', type(e)


VALUES = st.lists(value, min_size=1, max_size=4)


@prop.facet(st.one_of(st.tuples(exprs(3), VALUES), TYPED, TYPED), 'the expression has an operator', quick=2500, thorough=60000)
def expressions(case):
    e, values = case
    memo = {}
    try:
        p = pred(e, memo)
        outs = []
        for v in values:
            v = real(v)
            want = outcome(model, e, v)
            outs.append(want)
            got = outcome(p, v)
            eq(got, want, '%r called on %r' % (e, v))
        for sub, p_sub in list(memo.items()):       # combining predicates leaves the parts as they were
            sub = eval(sub)
            for v in values[:1]:
                eq(outcome(p_sub, real(v)), outcome(model, sub, real(v)), '%r, a part of %r, called on %r' % (sub, e, v))
    except TooBig:
        return False
    return len(memo) > 1 and any(o[0] != 'exception' for o in outs)


SRC_OPS = ['==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '&', '|', '^', '//', '%']


def source(depth):
    if depth == 0:
        return st.one_of(st.just('x'), st.integers(0, 9).map(str))
    sub = source(depth - 1)
    return st.one_of(st.just('x'), st.builds(lambda a, o, b: '(%s) %s (%s)' % (a, o, b), sub, st.sampled_from(SRC_OPS), sub),
                     st.builds(lambda a: '[%s]' % a, sub), st.builds(lambda a, b: '(%s) or (%s)' % (a, b), sub, sub), st.builds(lambda a: 'not (%s)' % a, sub),
                     st.builds(lambda a: 'str(%s)' % a, sub), st.builds(lambda a: '[y for y in [%s, 3] if y == x]' % a, sub))


@prop.facet(st.tuples(source(3), st.lists(st.one_of(scalar, st.integers(-3, 9)), min_size=1, max_size=4)), 'the expression refers to x', quick=600)
def sources(case):
    src, values = case
    f = source_to_function(src)
    g = short_none(src)
    check(source_to_function(f) is f, 'a callable was not returned as it is')
    for v in values:
        def want_fun():
            return eval(src, {'x': v})
        want = outcome(want_fun)
        eq(outcome(f, v), want, 'source_to_function(%r)(%r)' % (src, v))
        eq(outcome(g, v), (type(None), None) if v is None else want, 'short_none(%r)(%r)' % (src, v))
        eq(outcome(short_none(f), v), (type(None), None) if v is None else want, 'short_none of a callable')
    return 'x' in src


def structs(depth, hashable=False):
    leaf = st.one_of(st.tuples(st.just('p'), st.one_of(exprs(1), number_of(X, 1), number_of(X, 2), truth_of(X, 0))), st.tuples(st.just('c'), scalar), st.tuples(st.just('c'), st.sampled_from(['abc', b'xy', 2.5])))
    if depth == 0:
        return leaf
    sub = structs(depth - 1)
    out = [leaf, st.tuples(st.just('tuple'), st.lists(structs(depth - 1, hashable), max_size=3))]
    if not hashable:
        out += [st.tuples(st.just('list'), st.lists(sub, max_size=3)),
                st.tuples(st.just('dict'), st.lists(st.tuples(structs(depth - 1, True), sub), max_size=4)),
                st.tuples(st.just('wrap'), st.tuples(st.just('list'), st.lists(sub, max_size=2)))]
    return st.one_of(*out)


def make(s):
    k = s[0]
    if k == 'p':
        return pred(s[1], {}).identity()
    if k == 'c':
        return s[1]
    if k == 'tuple':
        return tuple(make(e) for e in s[1])
    if k == 'list':
        return [make(e) for e in s[1]]
    if k == 'dict':
        return {make(a): make(b) for a, b in s[1]}
    if k == 'wrap':
        return HashableWrapper(make(s[1]))


def expected(s, v):
    k = s[0]
    if k == 'p':
        return model(s[1], v)
    if k == 'c':
        return s[1]
    if k == 'tuple':
        return tuple(expected(e, v) for e in s[1])
    if k == 'list':
        return [expected(e, v) for e in s[1]]
    if k == 'dict':
        # equal constant keys are a single entry, the later value being kept at the place of the earlier
        return {expected(a, v): expected(b, v) for a, b in s[1]}
    if k == 'wrap':
        return expected(s[1], v)


def count(s):
    if s[0] in ('p', 'c'):
        return 1
    if s[0] == 'wrap':
        return count(s[1])
    if s[0] == 'dict':
        return sum(count(a) + count(b) for a, b in s[1])
    return sum(count(e) for e in s[1])


def ambiguous(s):
    """whether the order of equal keys decides"""
    if s[0] in ('p', 'c'):
        return False
    if s[0] == 'dict':
        return len(s[1]) != len({repr(a) for a, _ in s[1]}) or any(ambiguous(a) or ambiguous(b) for a, b in s[1])
    return any(ambiguous(e) for e in ([s[1]] if s[0] == 'wrap' else s[1]))


def typed(v):
    if isinstance(v, (list, tuple)):
        return type(v), [typed(e) for e in v]
    if isinstance(v, dict):
        return type(v), [(typed(a), typed(b)) for a, b in v.items()]
    if isinstance(v, type({}.keys())):
        return list(v)
    return type(v), v


@prop.facet(st.tuples(structs(3), st.lists(st.one_of(st.integers(-4, 9), st.integers(-4, 9), value), min_size=1, max_size=3), st.booleans()), 'the structure has at least two elements', quick=2000)
def structures(case):
    s, values, final = case
    if ambiguous(s):
        return False
    try:
        struct = make(s)
    except TooBig:
        return False
    for v in values:
        v = real(v)

        def want():
            out = expected(s, v)
            return typed(('final', out)) if final else typed(out)

        def got():
            if final:
                return typed(build_structure(struct, v, lambda y: ('final', y)))
            return typed(build_structure(struct, v))
        try:
            w = outcome(want)
        except TooBig:
            return False
        eq(outcome(got), w, '%r built upon %r' % (s, v))
    return count(s) >= 2
