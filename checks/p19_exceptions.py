"""P19: wrappers that translate, silence, expect or log exceptions touch exactly the declared ones"""
import logging

from hypothesis import strategies as st

from harness import Property, check, eq, Violation

from satella.coding import rethrow_as, silence_excs, reraise_as, log_exceptions, catch_exception, raises_exception, expect_exception
from satella.coding.decorators import call_method_on_exception
from satella.exceptions import CodedCustomException, CustomException

prop = Property('P19')


class E0(Exception):
    pass


class E1(E0):
    pass


class E2(Exception):
    pass


class E12(E1, E2):
    pass


class E3(E0):
    pass


class KW(Exception):
    def __init__(self, *args, **kwargs):
        super().__init__(*args)
        self.kw = kwargs


class Hard(BaseException):
    pass


EXCS = [E0, E1, E2, E12, E3, Hard]
exc = st.integers(0, len(EXCS) - 1)
one_or_many = st.one_of(exc, st.lists(exc, max_size=3).map(tuple))


def get(x):
    return EXCS[x] if isinstance(x, int) else tuple(EXCS[i] for i in x)


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, record):
        self.out.append((record.levelno, record.getMessage(), record.exc_info and record.exc_info[1]))


FORMATS = ['{e}', '{e!r} {args} {kwargs}', 'constant', '{extra} {e}', '{args[0]} {kwargs[k]}', '{extra!r}:{e.args}', '{{e}} {extra:>5}']

layer = st.one_of(
    st.tuples(st.just('rethrow'), st.lists(st.tuples(one_or_many, st.one_of(st.none(), exc)), min_size=1, max_size=3),
              st.sampled_from(['none', 'value', 'falsy', 'factory']), st.booleans()),
    st.tuples(st.just('silence'), st.lists(exc, min_size=0, max_size=3), st.sampled_from(['none', 'value', 'falsy', 'factory'])),
    st.tuples(st.just('reraise'), one_or_many, st.one_of(st.none(), exc), st.integers(0, 3)),
    st.tuples(st.just('log'), st.one_of(st.none(), one_or_many), st.booleans(), st.sampled_from(FORMATS),
              st.sampled_from([logging.WARNING, logging.ERROR])),
    st.tuples(st.just('method'), one_or_many.filter(lambda x: x != 5 and not (isinstance(x, tuple) and 5 in x))),
    st.tuples(st.just('expect'), one_or_many, exc),
)


def build(spec, log, prefix):
    """-> (wrapper, usable as a decorator)"""
    if spec[0] == 'rethrow':
        pairs = [(get(a), None if b is None else EXCS[b]) for a, b in spec[1]]
        kw = {}
        if spec[2] == 'value':
            kw['returns'] = (prefix, 'v')
        elif spec[2] == 'falsy':
            kw['returns'] = 0
        elif spec[2] == 'factory':
            kw['returns_factory'] = lambda: (prefix, 'f')
        if spec[3]:
            kw['exception_preprocessor'] = lambda e: 'pre' + type(e).__name__
        return rethrow_as(*(pairs[0] if len(pairs) == 1 else pairs), **kw)
    if spec[0] == 'silence':
        kw = {}
        if spec[2] == 'value':
            kw['returns'] = (prefix, 'v')
        elif spec[2] == 'falsy':
            kw['returns'] = 0
        elif spec[2] == 'factory':
            kw['returns_factory'] = lambda: (prefix, 'f')
        return silence_excs(*[EXCS[i] for i in spec[1]], **kw)
    if spec[0] == 'reraise':
        return reraise_as(get(spec[1]), None if spec[2] is None else EXCS[spec[2]], *range(spec[3]))
    if spec[0] == 'log':
        kw = {} if spec[1] is None else {'exc_types': get(spec[1])}
        # whatever equals the default is left out
        if spec[2]:
            kw['swallow_exception'] = True
        if spec[4] != logging.ERROR:
            kw['severity'] = spec[4]
        if spec[3] != '{e}':
            kw['format_string'] = spec[3]
        if 'extra' in spec[3] or spec[1] is None:
            kw['locals_'] = {'extra': prefix, 'e': 'never the exception'}
        return log_exceptions(log, **kw)
    if spec[0] == 'method':
        return call_method_on_exception(get(spec[1]), 'on_error', prefix, k=1)
    return expect_exception(get(spec[1]), EXCS[spec[2]], 'not raised')


def same(got, want, original=None):
    """compares outcomes"""
    if got[0] != want[0]:
        return False
    if got[0] == 'value':
        return got[1] == want[1] and type(got[1]) is type(want[1])
    a, b = got[1], want[1]
    if isinstance(b, tuple):
        return type(a) is b[0] and a.args == b[1]
    if original is not None and b is not original:      # was raised anew
        return type(a) is type(b) and a.args == b.args
    return a is b


def model(spec, outcome, prefix, context, args, kwargs, logged, methods):
    """outcome of the inside -> outcome of the outside"""
    silenced = ('value', None)
    if spec[0] in ('rethrow', 'silence') and not context:
        silenced = ('value', {'none': None, 'value': (prefix, 'v'), 'falsy': 0, 'factory': (prefix, 'f')}[spec[2]])
    if spec[0] == 'expect':
        if outcome[0] == 'value':
            return 'exc', (EXCS[spec[2]], ('not raised',))
        return silenced if isinstance(outcome[1], get(spec[1])) else outcome
    if outcome[0] == 'value':
        return outcome
    e = outcome[1]
    if spec[0] == 'rethrow':
        for a, b in spec[1]:
            if isinstance(e, get(a)):
                if b is None:
                    return silenced
                return 'exc', (EXCS[b], ('pre' + type(e).__name__ if spec[3] else repr(e),))
        return outcome
    if spec[0] == 'silence':
        return silenced if isinstance(e, tuple(EXCS[i] for i in spec[1])) else outcome
    if spec[0] == 'reraise':
        if isinstance(e, get(spec[1])):
            return silenced if spec[2] is None else ('exc', (EXCS[spec[2]], tuple(range(spec[3]))))
        return outcome
    if spec[0] == 'method':
        if isinstance(e, get(spec[1])):
            methods.append((prefix, 1))
            return 'value', 'handled'
        return outcome
    if isinstance(e, Exception if spec[1] is None else get(spec[1])):
        logged.append((spec[4], spec[3].format(e=e, args=args, kwargs=kwargs, extra=prefix), e))
        if spec[2]:
            return silenced
    return outcome


class Obj:
    def __init__(self):
        self.calls = []

    def on_error(self, prefix, k=None):
        self.calls.append((prefix, k))
        return 'handled'


@prop.facet(st.tuples(st.lists(st.tuples(layer, st.booleans()), min_size=1, max_size=4), st.one_of(st.none(), exc), st.sampled_from([0, None, (), 'x'])),
            'something was raised and altered or logged', quick=5000, thorough=100000)
def layers(case):
    """nested wrappers, as decorators or context managers, around a function that raises or returns"""
    specs, raised, value = case
    logger = logging.Logger('p19')
    handler = Log()
    logger.addHandler(handler)
    obj = Obj()
    original = None if raised is None else EXCS[raised]('text', 7)
    logged, methods = [], []

    def outcome_of(f):
        try:
            return 'value', f()
        except BaseException as e:
            return 'exc', e

    def base(self, *args, **kwargs):
        if original is not None:
            raise original
        return value

    fun = base
    out = outcome_of(lambda: base(obj))
    call_args, call_kwargs = (1, 'a'), {'k': 2}
    altered = False
    for i, (spec, context) in enumerate(specs):
        if spec[0] == 'expect':
            context = True
        elif spec[0] == 'method':
            context = False
        if spec[0] == 'log' and context and 'args[0]' in spec[3]:
            return False
        prefix = 'p%s' % i
        w = build(spec, logger, prefix)
        inner = fun
        if context:
            def fun(self, *args, w=w, inner=inner, **kwargs):
                with w:
                    return inner(self, *args, **kwargs)
        else:
            fun = w(inner)
            eq(fun.__name__, inner.__name__, 'name of the function')
        handler.out.clear()
        obj.calls.clear()
        logged_before, methods_before = logged[:], methods[:]
        logged.clear()
        methods.clear()
        # the inside is executed anew, so everything inside of it happens as well
        want = model(spec, out, prefix, context, () if context else (obj,) + call_args, {} if context else call_kwargs, logged, methods)
        got = outcome_of(lambda: fun(obj, *call_args, **call_kwargs))
        check(same(got, want, original or E0()), '%r around %r: got %r, expected %r', spec, out, got, want)
        # layers inside log the exceptions of their own, created anew
        check(len(handler.out) == len(logged_before) + len(logged), 'logged %r instead of %r', handler.out, logged_before + logged)
        for (l1, m1, e1), (l2, m2, e2) in zip(handler.out, logged_before + logged):
            check((l1, m1) == (l2, m2), 'logged %r instead of %r', (l1, m1), (l2, m2))
            check(type(e1) is type(e2) and e1.args == e2.args, 'logged exception %r instead of %r', e1, e2)
        eq(obj.calls, methods_before + methods, 'methods called')
        altered = altered or logged or methods or not same(got, out, E0())
        logged[:0], methods[:0] = logged_before, methods_before
        if got[0] == 'exc' and spec[0] == 'reraise' and want is not out and want[1] is not out[1]:
            c = got[1].__cause__
            check(type(c) is type(out[1]) and c.args == out[1].args, 'the cause of the exception was lost')
        out = got
    return raised is not None and bool(altered)


@prop.facet(st.tuples(layer.filter(lambda x: x[0] not in ('expect', 'method')), st.lists(st.tuples(st.one_of(st.none(), exc), st.booleans()), min_size=2, max_size=5)),
            'an inner call failed and an outer one did not', quick=1500, thorough=30000)
def recursion(case):
    """the same decorated function calling itself; failures inside do not influence calls around"""
    spec, levels = case
    logger = logging.Logger('p19')
    handler = Log()
    logger.addHandler(handler)
    if spec[0] == 'log' and 'args[0]' in spec[3]:
        return False
    got, want = {}, {}
    w = build(spec, logger, 'p')

    @w
    def fun(n):
        raised, first = levels[n]
        if n + 1 < len(levels):
            try:
                got[n + 1] = 'value', fun(n + 1)
            except BaseException as e:
                got[n + 1] = 'exc', e
        if raised is not None:
            raise EXCS[raised](n)
        return ('level', n)

    try:
        got[0] = 'value', fun(0)
    except BaseException as e:
        got[0] = 'exc', e
    failed_inside = False
    good_outside = False
    for n in reversed(range(len(levels))):
        raised = levels[n][0]
        out = ('value', ('level', n)) if raised is None else ('exc', EXCS[raised](n))
        want = model(spec, out, 'p', False, (n,), {}, [], [])
        if want[0] == 'exc' and not isinstance(want[1], tuple):
            want = 'exc', (type(want[1]), want[1].args)
        check(same(got[n], want), 'level %s: got %r, expected %r', n, got[n], want)
        if raised is not None:
            failed_inside = True
        elif failed_inside:
            good_outside = True
    return good_outside


@prop.facet(st.tuples(st.one_of(st.none(), exc), one_or_many, st.one_of(st.none(), st.integers(0, 3)), st.booleans()), 'something was raised', quick=500)
def catching(case):
    raised, types, instead, flag = case
    e = None if raised is None else EXCS[raised](1)

    def fun():
        if e is not None:
            raise e
        return 'result'

    try:
        got = 'value', catch_exception(get(types), fun, instead, flag)
    except BaseException as x:
        got = 'exc', x
    try:
        got2 = 'value', raises_exception(get(types), fun)
    except BaseException as x:
        got2 = 'exc', x
    if e is None:
        if instead is not None:
            eq(got, ('value', instead), 'nothing raised')
        elif flag:
            eq(got, ('value', 'result'), 'nothing raised')
        else:
            check(got[0] == 'exc' and type(got[1]) is ValueError, 'nothing raised: %r', got)
        eq(got2, ('value', False), 'raises_exception')
    elif isinstance(e, get(types)):
        check(got == ('value', e), 'caught: %r', got)
        eq(got2, ('value', True), 'raises_exception')
    else:
        check(got == ('exc', e) and got2 == ('exc', e), 'an undeclared exception: %r %r', got, got2)
    return e is not None


@prop.facet(st.tuples(st.one_of(st.none(), one_or_many), st.booleans(), st.lists(st.integers(0, 5), max_size=4), st.one_of(st.none(), exc),
                      st.sampled_from(FORMATS), st.lists(st.one_of(st.none(), st.integers(0, 9), st.tuples(exc)), max_size=5)),
            'the generator was fed with values or exceptions', quick=800)
def logging_generators(case):
    """a generator function decorated to log exceptions is driven as the plain one would be"""
    types, swallow, values, raised, fmt, drive = case
    logger = logging.Logger('p19')
    handler = Log()
    logger.addHandler(handler)

    def plain(*args, **kwargs):
        for v in values:
            try:
                got = yield v
            except E2:
                got = 'caught'
            if got is not None:
                yield ('got', got)
        if raised is not None:
            raise EXCS[raised]('end')
        return 'returned'

    kw = {} if types is None else {'exc_types': get(types)}
    if swallow:
        kw['swallow_exception'] = True
    logging_one = log_exceptions(logger, format_string=fmt, locals_={'extra': 1}, **kw)(plain)
    a, b = plain(1, k=2), logging_one(1, k=2)
    for d in [None] + drive + [None] * 9:
        def step(gen):
            try:
                if isinstance(d, tuple):
                    return 'value', gen.throw(EXCS[d[0]]('thrown'))
                return 'value', gen.send(d)
            except StopIteration as e:
                return 'stop', e.value
            except BaseException as e:
                return 'exc', e
        want, got = step(a), step(b)
        if want[0] == 'exc':
            covered = isinstance(want[1], Exception if types is None else get(types))
            eq(len(handler.out), int(covered), 'exceptions logged')
            if covered:
                eq(handler.out[0][1], fmt.format(e=want[1], args=(1,), kwargs={'k': 2}, extra=1), 'message')
                if swallow:
                    eq(got[0], 'stop', 'a swallowed exception ends the generator')
                    break
            check(got[0] == 'exc' and type(got[1]) is type(want[1]) and got[1].args == want[1].args, 'raised %r', got)
            break
        eq(got, want, 'result of %r' % (d,))
        if want[0] == 'stop':
            break
    else:
        raise Violation('endless')
    return any(d is not None for d in drive)


@prop.facet(st.tuples(st.integers(0, 3), st.integers(0, 3), st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 3)), st.booleans()),
            'both have codes', quick=400)
def coded(case):
    """isinstance of exceptions distinguished by codes"""
    parent1, parent2, code1, code2, own = case

    class Base(CodedCustomException):
        pass

    class Other(CodedCustomException):
        pass

    class Sub(Base):
        pass

    class Leaf(Other):
        pass

    families = [(Base, 0), (Other, 1), (Sub, 0), (Leaf, 1)]
    A, fam1 = families[parent1]
    B, fam2 = families[parent2]
    if own:
        inst = A('message', code1)
    else:
        inst = A('message')
        if code1 is not None:
            inst.code = code1
    eq((inst.message, getattr(inst, 'code', None)), ('message', code1), 'attributes')
    C = type('C', (B,), {} if code2 is None else {'code': code2})
    if fam1 != fam2:
        check(not isinstance(inst, C), 'unrelated hierarchies')
    elif code1 is not None or code2 is not None:
        eq(isinstance(inst, C), code1 == code2, 'isinstance by code')
    check(isinstance(inst, A) and isinstance(inst, CodedCustomException) and isinstance(C('x'), C) and isinstance(C('x'), B), 'proper instances')
    return code1 is not None and code2 is not None


@prop.facet(st.tuples(st.lists(st.one_of(st.integers(), st.text(max_size=3), st.none()), max_size=3),
                      st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.one_of(st.integers(), st.text(max_size=3)), max_size=3)),
            'both positional and keyword arguments', quick=300)
def custom_exception(case):
    args, kwargs = case

    class MyError(CustomException):
        pass

    e = MyError(*args, **kwargs)
    eq((e.args, e.kwargs), (tuple(args), kwargs), 'arguments')
    parts = [repr(a) for a in args] + ['%s=%r' % kv for kv in kwargs.items()]
    plain = [repr(a) for a in args]
    text, rep = str(e), repr(e)
    for p in parts:
        check(p in text and p in rep, 'argument %s is missing in %s or %s', p, text, rep)
    check(text.startswith('MyError(') and text.endswith(')'), 'str: %s', text)
    if not kwargs:
        eq(text, 'MyError(%s)' % ', '.join(plain), 'str')
        check(rep.endswith('MyError(%s)' % ', '.join(plain)), 'repr: %s', rep)
    return bool(args and kwargs)
