"""P21: decorators handling arguments bind them exactly as Python does"""
import copy
import inspect
import logging
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation

from satella.coding import get_arguments, call_with_arguments
from satella.coding.decorators import transform_result, transform_arguments, execute_before, replace_argument_if, auto_adapt_to_methods, \
    attach_arguments, copy_arguments, for_argument, execute_if_attribute_none, execute_if_attribute_not_none, cached_property, precondition, \
    postcondition, wraps
from satella.coding import decorators as D, rethrow_as, silence_excs, log_exceptions
from satella.coding.concurrent import Monitor, LockedDataset, run_as_future
from satella.coding.predicates import x
from satella.coding.sequences import to_iterator
from satella.opentracing import trace_function
from satella.time import ExponentialBackoff
from satella.exceptions import PreconditionError

prop = Property('P21')

NAMES = 'abcdefgh'


class Spec:
    """A signature and a function returning everything it was called with"""

    def __init__(self, n_po, n_pk, n_def, var, kos, kw, method=False):
        self.n_po, self.n_pk = n_po, n_pk
        n = n_po + n_pk
        self.positional = list(NAMES[:n])
        self.kos = list(NAMES[n:n + len(kos)])
        n_def = min(n_def, n)
        self.defaults = {name: 100 + i if i % 2 else 0 for i, name in enumerate(self.positional) if i >= n - n_def}
        self.defaults.update({name: 200 + i if i else 0 for i, name in enumerate(self.kos) if kos[i]})
        self.var, self.kw = var, kw
        parts = [self.part(name) for name in self.positional]
        if n_po:
            parts.insert(n_po, '/')
        if method:
            parts.insert(0, 'self')
        if var:
            parts.append('*args')
        elif self.kos:
            parts.append('*')
        parts += [self.part(name) for name in self.kos]
        if kw:
            parts.append('**kwargs')
        space = {}
        exec('def fun(%s):\n    "documented"\n    out = dict(locals())\n    out.pop("self", None)\n    return out' % ', '.join(parts), space)
        self.fun = space['fun']
        self.fun.__module__ = 'somewhere'

    def part(self, name):
        return '%s=%r' % (name, self.defaults[name]) if name in self.defaults else name

    @property
    def named(self):
        return self.positional + self.kos

    def locals(self, args, kwargs):
        """What the function sees, or TypeError. Computed by hand, to be independent of inspect"""
        out = {}
        kwargs = dict(kwargs)
        args = list(args)
        for i, name in enumerate(self.positional):
            if args:
                out[name] = args.pop(0)
                if name in kwargs and not (i < self.n_po and self.kw):
                    raise TypeError()
            elif name in kwargs and i >= self.n_po:
                out[name] = kwargs.pop(name)
            elif name in self.defaults:
                out[name] = self.defaults[name]
            else:
                raise TypeError()
        if self.var:
            out['args'] = tuple(args)
        elif args:
            raise TypeError()
        for name in self.kos:
            if name in kwargs:
                out[name] = kwargs.pop(name)
            elif name in self.defaults:
                out[name] = self.defaults[name]
            else:
                raise TypeError()
        if self.kw:
            out['kwargs'] = kwargs
        elif kwargs:
            raise TypeError()
        return out


spec_s = st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 3), st.booleans(), st.lists(st.booleans(), max_size=2), st.booleans())
simple_spec = st.tuples(st.just(0), st.integers(1, 3), st.integers(0, 2), st.just(False), st.lists(st.booleans(), max_size=2), st.just(False))
no_defaults = st.tuples(st.integers(0, 1), st.integers(0, 3), st.just(0), st.booleans(), st.lists(st.just(False), max_size=2), st.booleans())
val = st.integers(-5, 20)
# (how many positionally, skip flags, extra positional, extra keywords, noise)
call_s = st.tuples(st.integers(0, 5), st.lists(st.booleans(), min_size=8, max_size=8), st.integers(0, 2), st.lists(st.sampled_from(['k', 'm', 'a']), max_size=2, unique=True),
                   st.sampled_from([None] * 8 + ['extra', 'missing', 'dup', 'badkw']), st.lists(val, min_size=12, max_size=12))


def make_call(spec, call):
    n_pos, skips, extra, extra_kw, noise, values = call
    values = iter(values)
    n_pos = max(min(n_pos, len(spec.positional)), spec.n_po if not all(n in spec.defaults for n in spec.positional[:spec.n_po]) else 0)
    args, kwargs = [], {}
    for name in spec.positional[:n_pos]:
        args.append(next(values))
    for i, name in enumerate(spec.named[n_pos:]):
        if name in spec.positional[:spec.n_po]:
            continue
        if name in spec.defaults and skips[i]:
            continue
        kwargs[name] = next(values)
    if spec.var and n_pos == len(spec.positional):
        args += [next(values) for _ in range(extra)]
    if spec.kw:
        for k in extra_kw:
            if k not in spec.named:     # CPython's own Signature.bind() is mistaken about names of positional-only parameters given as keywords
                kwargs[k] = next(values)
    if noise == 'extra':
        args += [1] * 6
    elif noise == 'missing' and args:
        args.pop()
    elif noise == 'missing' and kwargs:
        kwargs.pop(sorted(kwargs)[0])
    elif noise == 'dup' and spec.positional and not (spec.kw and spec.n_po):
        kwargs[spec.positional[0]] = 77
    elif noise == 'badkw':
        kwargs['zz'] = 5
    return args, kwargs


def outcome(fun, *args, **kwargs):
    try:
        return 'ok', fun(*args, **kwargs)
    except (TypeError, ValueError, KeyError, ZeroDivisionError, AssertionError) as e:
        return 'exc', type(e)


def looks(dec, fun):
    eq(dec.__name__, fun.__name__, 'name of the decorated function')
    eq(dec.__doc__, fun.__doc__, 'docstring of the decorated function')
    eq(dec.__module__, fun.__module__, 'module of the decorated function')
    eq(inspect.signature(dec), inspect.signature(fun), 'signature of the decorated function')
    check(dec.__wrapped__ is fun, '__wrapped__ is %r', dec.__wrapped__)


@prop.facet(st.tuples(spec_s, call_s, st.sampled_from(['function', 'method', 'classmethod', 'static', 'unbound'])), 'the call binds', quick=1500)
def binding(case):
    spec = Spec(*case[0], method=case[2] in ('method', 'classmethod', 'unbound'))
    args, kwargs = make_call(spec, case[1])
    fun = spec.fun
    if case[2] in ('method', 'unbound'):
        fun = type('K', (), {'fun': fun})().fun
    elif case[2] == 'classmethod':
        fun = type('K', (), {'fun': classmethod(fun)}).fun
    elif case[2] == 'static':
        fun = type('K', (), {'fun': staticmethod(fun)}).fun
    want = outcome(spec.locals, args, kwargs)
    eq(outcome(fun, *args, **kwargs), want, 'harness: plain call')
    got = outcome(get_arguments, fun, *args, **kwargs)
    eq(got, want, 'arguments of %r called with %r %r' % (inspect.signature(fun), args, kwargs))
    if want[0] == 'ok':
        eq(outcome(call_with_arguments, fun, got[1]), want, 'calling with the arguments obtained')
    return want[0] == 'ok' and len(want[1]) > 1


@prop.facet(st.tuples(spec_s, st.lists(st.booleans(), min_size=10, max_size=10), st.lists(val, min_size=10, max_size=10), st.booleans()),
            'an argument is given', quick=800)
def calling(case):
    spec = Spec(*case[0])
    given, values, surplus = case[1:]
    arguments, want, missing = {}, {}, False
    for i, name in enumerate(spec.named + (['args'] if spec.var else []) + (['kwargs'] if spec.kw else [])):
        v = values[i]
        if name == 'args':
            v = (v, v + 1)
        elif name == 'kwargs':
            v = {'k': v}
        if given[i]:
            want[name] = arguments[name] = v
        elif name == 'args':
            want[name] = ()
        elif name == 'kwargs':
            want[name] = {}
        elif name in spec.defaults:
            want[name] = spec.defaults[name]
        else:
            missing = True
    if surplus:
        arguments['zz'] = 1
    got = outcome(call_with_arguments, spec.fun, dict(arguments))
    if missing:
        eq(got, ('exc', TypeError), 'calling without required arguments (%r)' % (arguments,))
    elif surplus:
        eq(got, ('exc', ValueError), 'calling with too many arguments')
    else:
        eq(got, ('ok', want), 'calling %r with %r' % (inspect.signature(spec.fun), arguments))
    return bool(want)


EXPRS = ['{}*2', '{}+{other}', '[{}, {other}]', 'str({})', '{} // {other}', 'len([{}])', '{other}']


@prop.facet(st.tuples(spec_s, st.lists(call_s, min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7), st.integers(0, len(EXPRS) - 1)), min_size=1, max_size=3),
                      st.sampled_from(['arguments', 'result'])), 'a call binds, and there was something to be transformed', quick=1000)
def transforming(case):
    """transform_arguments and transform_result"""
    spec = Spec(*case[0])
    names = spec.named + (['args'] if spec.var else []) + (['kwargs'] if spec.kw else [])
    if not spec.named:
        return False
    if case[3] == 'arguments':
        exprs = {}
        for target, other, e in case[2]:
            t = spec.named[target % len(spec.named)]
            exprs[t] = EXPRS[e].format(t, other=names[other % len(names)])
        dec = transform_arguments(**exprs)(spec.fun)
        what = 'transform_arguments(%r)' % exprs
    else:
        other = case[2][0][1]
        e = EXPRS[case[2][0][2]].format('x["%s"]' % names[other % len(names)], other=names[case[2][0][0] % len(names)])
        dec = transform_result(e)(spec.fun)
        what = 'transform_result(%r)' % e
    looks(dec, spec.fun)
    binds = False
    for call in case[1]:
        args, kwargs = make_call(spec, call)
        want = outcome(spec.locals, args, kwargs)
        if want[0] == 'ok' and case[3] == 'arguments':
            def expected():
                out = dict(want[1])
                for k, e in exprs.items():
                    out[k] = eval(e, {}, dict(want[1]))
                return out
            want = outcome(expected)
        elif want[0] == 'ok':
            want = outcome(lambda: eval(e, {}, dict(want[1], x=dict(want[1]))))
        eq(outcome(dec, *args, **kwargs), want, '%s upon %s called with %r %r' % (what, inspect.signature(spec.fun), args, kwargs))
        binds |= want[0] == 'ok'
    return binds


@prop.facet(st.tuples(spec_s, st.lists(call_s, min_size=1, max_size=3), st.integers(0, 8), st.sampled_from(['int', 'str', 'pred', 'predx', 'tuple']), st.sampled_from(['x', 'list', 'dict', 'const', 'call'])),
            'the argument was replaced', quick=800)
def replacing(case):
    """replace_argument_if"""
    spec = Spec(*case[0])
    names = spec.named + ['zz']
    name = names[case[2] % len(names)]
    structure = {'x': x * 2, 'list': [x, 1, x + 1], 'dict': {'v': x, 'w': [x - 1]}, 'const': 'text', 'call': (x, (x < 3, None))}[case[4]]

    def build(v):
        return {'x': v * 2, 'list': [v, 1, v + 1], 'dict': {'v': v, 'w': [v - 1]}, 'const': 'text', 'call': (v, (v < 3, None))}[case[4]]
    kw = {'int': {'instance_of': int}, 'str': {'instance_of': str}, 'pred': {'predicate': lambda v: v % 2}, 'predx': {'predicate': x > 4},
          'tuple': {'instance_of': (str, int)}}[case[3]]
    cond = {'int': lambda v: True, 'str': lambda v: False, 'pred': lambda v: v % 2, 'predx': lambda v: v > 4, 'tuple': lambda v: True}[case[3]]
    dec = replace_argument_if(name, structure, **kw)(spec.fun)
    looks(dec, spec.fun)
    replaced = False
    for call in case[1]:
        args, kwargs = make_call(spec, call)
        want = outcome(spec.locals, args, kwargs)
        if want[0] == 'ok' and name in want[1] and cond(want[1][name]):
            want[1][name] = build(want[1][name])
            replaced = True
        eq(outcome(dec, *args, **kwargs), want, 'replacing %s' % name)
    return replaced


OPS = [(lambda v: v + 1000, lambda v: v + 1000), ('x*3', lambda v: v * 3), (str, str), (None, lambda v: v), ('self', lambda v: v), ('[x, x]', lambda v: [v, v]),
       (x - 7, lambda v: v - 7)]
op_i = st.integers(0, len(OPS) - 1)


@prop.facet(st.tuples(st.one_of(simple_spec, no_defaults), call_s, st.lists(op_i, max_size=4), st.lists(op_i, min_size=8, max_size=8), st.lists(st.booleans(), min_size=8, max_size=8),
                      st.one_of(st.none(), op_i)), 'the call binds, and an argument was processed', quick=1200)
def for_arguments(case):
    """for_argument: positional operations for positional arguments, keyword ones for these passed by keyword or left at the default"""
    spec = Spec(*case[0])
    args, kwargs = make_call(spec, case[1][:4] + (None,) + case[1][5:])
    want = outcome(spec.locals, args, kwargs)
    if want[0] != 'ok':
        return False
    n = min(len(case[2]), len(args))
    if spec.defaults:
        n = min(n, len(spec.positional))
    t_ops = case[2][:n]
    kw_ops = {}
    for i, name in enumerate(spec.named[len(args):] if len(args) <= len(spec.positional) else spec.kos):
        if case[4][i] and OPS[case[3][i]][0] != 'self':
            kw_ops[name] = case[3][i]
    options = {name: OPS[i][0] for name, i in kw_ops.items()}
    out = dict(want[1])
    final = lambda v: v
    if case[5] is not None and OPS[case[5]][0] not in ('self', None):
        options['returns'] = lambda v: ('returned', v)
        final = options['returns']
    for i, op in enumerate(t_ops):
        if i < len(spec.positional):
            out[spec.positional[i]] = OPS[op][1](out[spec.positional[i]])
        else:
            j = i - len(spec.positional)
            out['args'] = out['args'][:j] + (OPS[op][1](out['args'][j]),) + out['args'][j + 1:]
    for name, op in kw_ops.items():
        out[name] = OPS[op][1](out[name])
    dec = for_argument(*(OPS[i][0] for i in t_ops), **options)(spec.fun)
    looks(dec, spec.fun)
    for _ in range(2):
        got = outcome(dec, *args, **kwargs)
        outcome(dec, *[v + 1 for v in args], **{k: v + 2 for k, v in kwargs.items()})      # calls must not affect each other
        eq(got, ('ok', final(out)), 'for_argument(%r, %r) upon %s called with %r %r' % ([OPS[i][0] for i in t_ops], options, inspect.signature(spec.fun), args, kwargs))
    return bool(t_ops or kw_ops)


simple_v = st.one_of(st.none(), st.integers(-3, 3), st.booleans(), st.sampled_from(['', 'a']))


class FalsyOp:
    def __bool__(self):
        return False

    def __call__(self, v):
        return 'falsy', v


@prop.facet(st.tuples(st.sampled_from(['default', 'named x', 'predicate', 'has_keys', 'before', 'falsy']), simple_v, simple_v, st.lists(st.sampled_from('abc'), max_size=3), st.booleans()), 'always', quick=600)
def particular(case):
    """Values that are false or None, among the defaults, the arguments and the conditions; a parameter called x; callables as arguments"""
    kind, v, w, keys, flag = case
    if kind == 'default':
        @for_argument(lambda q: [q], b=lambda q: (q,), k=lambda q: {'k': q}, returns=lambda r: [r])
        def fun(a, b=None, *, k=None):
            return a, b, k
        eq(fun(v), [([v], (None,), {'k': None})], 'defaults of None were processed')
        eq(fun(v, b=w, k=v), [([v], (w,), {'k': v})], 'given')

        @for_argument(k=lambda q: (q,))
        def fun2(a, k=False):
            return a, k
        eq((fun2(v), fun2(v, k=w)), ((v, (False,)), (v, (w,))), 'default of False')
    elif kind == 'falsy':
        @for_argument(FalsyOp(), k=FalsyOp(), returns=FalsyOp())
        def fun(a, k=None):
            return a, k

        @for_argument(FalsyOp(), k=FalsyOp(), returns=FalsyOp())
        def fun2(a, *, k):
            return a, k
        for f in fun, fun2:
            eq(f(v, k=w), ('falsy', (('falsy', v), ('falsy', w))), 'operations that are false')
    elif kind == 'named x':
        @transform_result('[x, y]')
        def fun(x, y=w):
            return 'result', x
        eq(fun(v), [('result', v), w], 'x is the result')
        eq(fun(x=v, y=v), [('result', v), v], 'x is the result')

        @transform_arguments(x='[x, y]', y='[y, x]')
        def fun2(x, y=w):
            return x, y
        eq(fun2(v), ([v, w], [w, v]), 'arguments were transformed from the old ones')
    elif kind == 'predicate':
        for pred in (lambda q: q is None, lambda q: not q, lambda q: 'yes' if q is w else ''):
            @replace_argument_if('a', {'was': x}, predicate=pred)
            def fun(a, b=v):
                return a, b
            eq(fun(v), ({'was': v} if pred(v) else v, v), 'replace_argument_if')
            eq(fun(a=w, b=w), ({'was': w} if pred(w) else w, w), 'replace_argument_if')
    elif kind == 'has_keys':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            cond = D.has_keys(['a', 'b'] if flag else ['a'])
        fun = precondition(cond)(lambda d: d)
        d = {k: v for k in keys}
        if 'a' in d and ('b' in d or not flag):
            check(cond(d) and fun(d) is d, 'has_keys')
        else:
            raises(PreconditionError, cond, d)
            raises(PreconditionError, fun, d)
    else:
        seen = []
        before = execute_before(lambda *a, **k: seen.append((a, k)))
        for a, k in (((len, v), {}), ((len,), {'k': w}), ((v,), {}) if not callable(v) else ((), {'k': v}), ((len, len), {})):
            del seen[:]
            fun = before(*a, **k)(lambda q, r=1: (q, r))
            eq(seen, [], 'called too early')
            eq(fun(v, r=w), (v, w), 'result')
            eq(seen, [(a, k)], 'what was executed before')
    return True


PREDS = [('x > 3', lambda v: v > 3), (lambda v: v % 2 == 0, lambda v: v % 2 == 0), (None, lambda v: True), ('x != 7', lambda v: v != 7), (x < 12, lambda v: v < 12),
         ('x.missing' and 'x[0] == 1', None)]
pred_i = st.integers(0, len(PREDS) - 1)


@prop.facet(st.tuples(st.one_of(simple_spec, no_defaults, spec_s), call_s, st.lists(pred_i, max_size=4), st.lists(pred_i, min_size=8, max_size=8), st.lists(st.booleans(), min_size=8, max_size=8),
                      st.one_of(st.none(), pred_i)), 'a condition was checked', quick=1200)
def conditions(case):
    """precondition, postcondition"""
    spec = Spec(*case[0])
    args, kwargs = make_call(spec, case[1])
    t_ops = case[2][:len(args)]
    kw_ops = {name: case[3][i] for i, name in enumerate(sorted(kwargs)) if case[4][i] and PREDS[case[3][i]][1] is not None}
    called = []

    @wraps(spec.fun)
    def fun(*args, **kwargs):
        called.append(1)
        return spec.fun(*args, **kwargs)

    dec = precondition(*(PREDS[i][0] for i in t_ops), **{k: PREDS[i][0] for k, i in kw_ops.items()})(fun)
    looks(dec, fun)
    fails = any(PREDS[i][1] is None or not PREDS[i][1](v) for i, v in zip(t_ops, args)) or \
        any(not PREDS[i][1](kwargs[k]) for k, i in kw_ops.items())
    what = 'precondition(%r, %r) called with %r %r' % ([PREDS[i][0] for i in t_ops], {k: PREDS[i][0] for k, i in kw_ops.items()}, args, kwargs)
    if fails:
        try:
            v = dec(*args, **kwargs)
        except PreconditionError as e:
            check(isinstance(e, ValueError), 'PreconditionError is not a ValueError')
        else:
            raise Violation('%s returned %r' % (what, v))
        eq(called, [], '%s: executed though' % what)
    else:
        eq(outcome(dec, *args, **kwargs), outcome(spec.locals, args, kwargs), what)
        eq(called, [1], 'executions')
    if case[5] is not None and PREDS[case[5]][1] is not None and args:
        v0 = args[0]
        post = postcondition(PREDS[case[5]][0] or (lambda v: True))(lambda v: v)
        if PREDS[case[5]][1](v0):
            eq(post(v0), v0, 'postcondition')
        else:
            raises(PreconditionError, post, v0)
    return bool(t_ops or kw_ops)


@prop.facet(st.tuples(spec_s, st.lists(call_s, min_size=1, max_size=3), st.lists(val, max_size=2), st.dictionaries(st.sampled_from(['k', 'm', 'a', 'b', 'c']), val, max_size=2)),
            'a call binds', quick=800)
def attaching(case):
    """attach_arguments"""
    spec = Spec(*case[0])
    dec = attach_arguments(*case[2], **case[3])(spec.fun)
    looks(dec, spec.fun)
    binds = False
    for call in case[1] + case[1][:1]:      # attaching must not accumulate
        args, kwargs = make_call(spec, call)
        want = outcome(spec.locals, list(args) + case[2], dict(kwargs, **case[3]))
        eq(outcome(dec, *args, **kwargs), want, 'attach_arguments(%r, %r) called with %r %r' % (case[2], case[3], args, kwargs))
        binds |= want[0] == 'ok'
    return binds


class Box:
    def __init__(self, v):
        self.v = v


nested = st.recursive(st.integers(0, 5), lambda c: st.one_of(st.lists(c, min_size=1, max_size=3), st.dictionaries(st.sampled_from('ab'), c, min_size=1, max_size=2)), max_leaves=6)


def spoil(v, deep):
    """alters everything reachable"""
    if isinstance(v, list):
        if deep:
            for e in v:
                spoil(e, True)
        v.append('spoiled')
        v[0] = 'spoiled'
    elif isinstance(v, dict):
        if deep:
            for e in v.values():
                spoil(e, True)
        for k in v:
            v[k] = 'spoiled'


def identities(v):
    """identity of every mutable"""
    if isinstance(v, list):
        return [id(v)] + [identities(e) for e in v]
    if isinstance(v, dict):
        return [id(v)] + [identities(e) for e in v.values()]
    return []


@prop.facet(st.tuples(st.lists(nested, max_size=3), st.dictionaries(st.sampled_from('kmn'), nested, max_size=2), st.booleans()), 'there was a mutable argument', quick=500)
def copying(case):
    """copy_arguments"""
    args, kwargs, deep = copy.deepcopy(case)
    seen = []

    def fun(*args, **kwargs):
        seen.append((copy.deepcopy(args), copy.deepcopy(kwargs)))
        inner.append([e for v in list(args) + list(kwargs.values()) for e in ([id(e) for e in (v if isinstance(v, list) else v.values()) if isinstance(e, (list, dict))]
                                                                             if isinstance(v, (list, dict)) else [])])
        for v in list(args) + list(kwargs.values()):
            spoil(v, deep)
        return 'result'
    inner = []
    dec = copy_arguments(deep)(fun)
    looks(dec, fun)
    before = identities(list(args) + list(kwargs.values()))[1:]
    eq(dec(*args, **kwargs), 'result', 'result')
    eq(seen, [(tuple(case[0]), case[1])], 'arguments seen by the function')
    eq((args, kwargs), (case[0], case[1]), 'the arguments were altered')
    eq(identities(list(args) + list(kwargs.values()))[1:], before, 'identities')
    if not deep:
        mine = [id(e) for v in list(args) + list(kwargs.values()) if isinstance(v, (list, dict)) for e in (v if isinstance(v, list) else v.values()) if isinstance(e, (list, dict))]
        eq(inner[0], mine, 'a plain copy copied its elements too')
    return any(isinstance(v, (list, dict)) for v in list(args) + list(kwargs.values()))


@prop.facet(st.tuples(spec_s, call_s, st.lists(st.tuples(st.lists(val, max_size=2), st.dictionaries(st.sampled_from('km'), val, max_size=2)), min_size=1, max_size=3),
                      st.booleans()), 'the call binds', quick=500)
def executing_before(case):
    """execute_before"""
    spec = Spec(*case[0])
    args, kwargs = make_call(spec, case[1])
    log = []

    @execute_before
    def pre(*a, **k):
        log.append(('pre', a, k))
        if case[3] and len(log) == 1:
            raise KeyError('failed')
        return 5

    def fun(*a, **k):
        log.append('fun')
        return spec.fun(*a, **k)
    dec = fun
    order = []
    for a, k in case[2]:
        order.insert(0, ('pre', tuple(a), k))
        if a or k:
            dec = pre(*a, **k)(dec)
        else:
            dec = pre(dec)
    eq(dec.__name__, 'fun', 'name')
    want = outcome(spec.locals, args, kwargs)
    if case[3]:
        raises(KeyError, dec, *args, **kwargs)
        eq(log, order[:1], 'calls made when the first one fails')
        del log[:]
        log.append('skip')
    eq(outcome(dec, *args, **kwargs), want, 'execute_before')
    eq(log, (['skip'] if case[3] else []) + order + ['fun'], 'order of calls')
    return want[0] == 'ok'


@prop.facet(st.tuples(spec_s, call_s, st.integers(1, 3), st.sampled_from(['function', 'method', 'class', 'static', 'unbound'])), 'the call binds', quick=600)
def adapting(case):
    """auto_adapt_to_methods"""
    spec = Spec(*case[0])
    mspec = Spec(*case[0], method=True)
    args, kwargs = make_call(spec, case[1])
    seen = []

    @auto_adapt_to_methods
    def dec(fun):
        def outer(*a, **k):
            seen.append((a, k))
            return 'decorated', fun(*a, **k)
        return outer

    class K:
        method = dec(mspec.fun)
    if case[3] == 'function':
        f = dec(spec.fun)
    elif case[3] == 'static':
        class L:
            static = staticmethod(dec(spec.fun))
        f = L.static
    elif case[3] == 'class':
        class M(K):
            pass
        f = M().method
    else:
        f = K().method
    want = outcome(spec.locals, args, kwargs)
    if want[0] == 'ok':
        want = 'ok', ('decorated', want[1])
    for i in range(case[2]):
        eq(outcome(f, *args, **kwargs), want, 'an adapted %s' % case[3])
        eq(seen, [(tuple(args), kwargs)] * (i + 1), 'arguments seen by the decorator')
    return want[0] == 'ok'


ATTR = st.sampled_from([None, 0, '', 5, [], False])


@prop.facet(st.lists(st.tuples(st.sampled_from(['none', 'notnone', 'cached', 'cached_x', 'set']), ATTR, st.lists(val, max_size=2)), min_size=1, max_size=12),
            'a method was executed and another was not', quick=500)
def attributes(ops):
    """execute_if_attribute_none, execute_if_attribute_not_none, cached_property"""
    log = []

    class K:
        def __init__(self):
            self.attr = None
            self.other = 'unset'

        @execute_if_attribute_none('attr')
        def none(self, *args, k=3):
            log.append(1)
            return args, k

        @execute_if_attribute_not_none('attr')
        def notnone(self, *args, k=3):
            log.append(1)
            return args, k

        @property
        @cached_property('attr')
        def cached(self):
            log.append(1)
            return compute

        @property
        @cached_property('other', assume_not_loaded='unset')
        def cached_x(self):
            log.append(1)
            return compute

    two = [K(), K()]
    model = [[None, 'unset'], [None, 'unset']]
    ran = skipped = 0
    for i, (kind, compute, args) in enumerate(ops):
        w = len(args) % 2
        o, m = two[w], model[w]
        before = len(log)
        if kind == 'set':
            o.attr = m[0] = compute
            continue
        if kind in ('none', 'notnone'):
            runs = (m[0] is None) == (kind == 'none')
            got = getattr(o, kind)(*args, k=4)
            eq(got, (tuple(args), 4) if runs else None, kind)
        else:
            j = 0 if kind == 'cached' else 1
            runs = m[j] == (None if j == 0 else 'unset') and (j or m[j] is None)
            if runs:
                m[j] = compute
            got = getattr(o, kind)
            check(got is m[j], '%s is %r, expected %r', kind, got, m[j])
        eq(len(log) - before, int(bool(runs)), 'executions of %s with attribute %r' % (kind, m))
        eq((o.attr, o.other), tuple(m), 'attributes')
        ran += bool(runs)
        skipped += not runs
    return ran and skipped


DRESSES = {
    'attach_arguments': lambda: D.attach_arguments(1), 'for_argument': lambda: D.for_argument(int), 'execute_before': lambda: D.execute_before(lambda *a, **k: None),
    'copy_arguments': lambda: D.copy_arguments(), 'replace_argument_if': lambda: D.replace_argument_if('a', 1, predicate=lambda q: False), 'transform_result': lambda: D.transform_result('x'),
    'transform_arguments': lambda: D.transform_arguments(a='b'), 'precondition': lambda: D.precondition('x > 0'), 'postcondition': lambda: D.postcondition('x > 0'), 'retry': lambda: D.retry(2),
    'retry_forever': lambda: D.retry(), 'loop_while': lambda: D.loop_while(lambda: False), 'queue_get': lambda: D.queue_get('q'), 'chain_functions': lambda: D.chain_functions(len),
    'short_none': lambda: D.short_none, 'memoize': lambda: D.memoize, 'return_as_list': lambda: D.return_as_list(), 'default_return': lambda: D.default_return(1),
    'cache_memoize': lambda: D.cache_memoize(5), 'call_method_on_exception': lambda: D.call_method_on_exception(KeyError, 'm'), 'execute_if_attribute_none': lambda: D.execute_if_attribute_none('q'),
    'execute_if_attribute_not_none': lambda: D.execute_if_attribute_not_none('q'), 'synchronized': lambda: Monitor.synchronized, 'synchronize_on_attribute': lambda: Monitor.synchronize_on_attribute('q'),
    'run_as_future': lambda: run_as_future, 'rethrow_as': lambda: rethrow_as(KeyError, ValueError), 'silence_excs': lambda: silence_excs(KeyError), 'log_exceptions': lambda: log_exceptions(logging.getLogger('x')),
    'to_iterator': lambda: to_iterator, 'trace_function': lambda: trace_function(None, 'x'), 'locked': lambda: LockedDataset.locked(), 'backoff': lambda: ExponentialBackoff().launch(KeyError)}


@prop.facet(st.tuples(spec_s, st.lists(st.sampled_from(sorted(DRESSES)), min_size=1, max_size=3), st.booleans()), 'there are parameters', quick=600)
def identity(case):
    """Decorated functions (and wrapped classes) keep their identity, however many times decorated"""
    spec, names, on_class = Spec(*case[0]), case[1], case[2]
    fun = spec.fun
    fun.__annotations__ = {n: int for n in spec.named[:2]}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for name in names:
            dec = DRESSES[name]()(fun)
            looks(dec, fun)
            eq(dec.__annotations__, fun.__annotations__, 'annotations of the decorated function')
            fun = dec
    eq(str(inspect.signature(fun)), str(inspect.signature(spec.fun)), 'signature at last')
    eq(inspect.unwrap(fun), spec.fun, 'the function within')
    if on_class:
        space = {}
        exec('class Old:\n    "documented"\n    y: int\n    def __init__%s:\n        pass' % str(inspect.signature(Spec(*case[0], method=True).fun)), space)
        old = space['Old']
        old.__module__ = 'somewhere'

        class New:
            def __init__(self, *args, **kwargs):
                pass
        new = wraps(old)(New)
        check(new is New, 'another class was returned')
        eq((new.__name__, new.__module__, new.__doc__, new.__annotations__), ('Old', 'somewhere', 'documented', {'y': int}), 'name, module, documentation and annotations of the class')
        eq(inspect.signature(new), inspect.signature(old), 'signature of the class')
        check(new.__wrapped__ is old, '__wrapped__ of the class')
    return bool(spec.named)
