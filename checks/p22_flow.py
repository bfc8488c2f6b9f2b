"""P22: decorators repeating, retrying, chaining and memoizing calls make exactly the promised calls"""
import sched as S       # before satella
import queue

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation, FakeClock
from gen import op, ops

from satella.coding import chain_callables
from satella.coding.ctxt_managers import wrap_callable_in_context_manager
from satella.coding.decorators import retry, loop_while, repeat_forever, queue_get, chain_functions, default_return, return_as_list, memoize, \
    cache_memoize
from satella.coding.fun_static import static_var
from satella.coding.predicates import x

prop = Property('P22', ['threads are switched by the harness, at most 3 threads of 4 calls each'])
traces = st.sampled_from([True, True, True, False])


class E0(Exception):
    pass


class E1(E0):
    pass


class E2(Exception):
    pass


class Hard(BaseException):
    pass


EXCS = [E0, E1, E2, Hard]
results = st.one_of(st.sampled_from([None, 0, 'v', False]), st.integers(1, 5))
step = st.one_of(st.tuples(st.just('exc'), st.integers(0, 3)), st.tuples(st.just('exc'), st.integers(0, 1)), st.tuples(st.just('ret'), results))


class Script:
    """A function following the script, the last step of which is repeated"""

    def __init__(self, steps, log):
        self.steps, self.log, self.calls = steps, log, 0

    def __call__(self, *args, **kwargs):
        i = self.calls
        self.calls += 1
        if i >= len(self.steps):
            kind, v = 'ret', 'end'
        else:
            kind, v = self.steps[i]
        if kind == 'exc':
            e = EXCS[v](i)
            self.log.append(('call', args, kwargs, v))
            raise e
        self.log.append(('call', args, kwargs, None))
        return v


def outcome(fun, *args, **kwargs):
    try:
        return 'ok', fun(*args, **kwargs)
    except Violation:
        raise
    except (Exception, Hard) as e:
        return 'exc', type(e), e.args


@prop.facet(st.tuples(st.one_of(st.none(), st.integers(1, 5)), st.one_of(st.none(), st.integers(0, 2), st.lists(st.integers(0, 2), max_size=2).map(tuple)),
                      st.lists(step, max_size=6), st.booleans(), st.lists(st.booleans(), min_size=4, max_size=4), st.integers(1, 2)),
            'the call was retried', quick=1500)
def retrying(case):
    times, classes, steps, swallow, callbacks, rounds = case
    log = []
    fun = Script(steps, log)
    kw = {}
    if callbacks[0]:
        kw['on_failure'] = lambda e: log.append(('on_failure', type(e), e.args))
    if callbacks[1]:
        kw['call_on_failure'] = lambda e: log.append(('call_on_failure', type(e), e.args))
    if callbacks[2]:
        kw['call_on_success'] = lambda n: log.append(('success', n))
    if callbacks[3]:
        kw['call_between_retries'] = lambda e: log.append(('between', type(e), e.args))
    if classes is not None:
        kw['exc_classes'] = EXCS[classes] if isinstance(classes, int) else tuple(EXCS[i] for i in classes)
    caught = kw.get('exc_classes', Exception)

    def f(*args, **kwargs):
        return fun(*args, **kwargs)
    dec = retry(times, swallow_exception=swallow, **kw)(f)
    eq(dec.__name__, 'f', 'name')
    i = 0
    retried = False
    for r in range(rounds):
        want_log, want, attempt = [], None, 0
        del log[:]
        while True:
            kind, v = steps[i] if i < len(steps) else ('ret', 'end')
            i += 1
            want_log.append(('call', (r,), {'k': 1}, v if kind == 'exc' else None))
            if kind == 'ret':
                if callbacks[2]:
                    want_log.append(('success', attempt))
                want = 'ok', v
                break
            exc = EXCS[v]
            if not issubclass(exc, caught):
                want = 'exc', exc, (i - 1,)
                break
            attempt += 1
            if attempt == times:
                if callbacks[0]:
                    want_log.append(('on_failure', exc, (i - 1,)))
                if callbacks[1]:
                    want_log.append(('call_on_failure', exc, (i - 1,)))
                want = ('ok', None) if swallow else ('exc', exc, (i - 1,))
                break
            retried = True
            if callbacks[3]:
                want_log.append(('between', exc, (i - 1,)))
        eq(outcome(dec, r, k=1), want, 'outcome')
        eq(log, want_log, 'calls made')
    return retried


@prop.facet(st.tuples(st.integers(0, 6), st.sampled_from(['function', 'method', 'attribute', 'forever', 'forever-method']), st.one_of(st.none(), st.integers(1, 4)),
                      st.lists(st.integers(0, 3), max_size=2)), 'at least two repetitions', quick=500)
def looping(case):
    """loop_while, repeat_forever"""
    n, kind, fails, args = case
    log = []

    def body(*a, **k):
        log.append((a, k))
        if fails is not None and len(log) == fails:
            raise E0(len(log))
        return len(log)
    if kind.startswith('forever'):
        if fails is None:
            return False
        if kind == 'forever':
            f = repeat_forever(body)
            got = outcome(f, *args, k=2)
            first = ()
        else:
            class K:
                run = repeat_forever(body)
            o = K()
            got = outcome(o.run, *args, k=2)
            first = (o,)
        eq(got, ('exc', E0, (fails,)), 'outcome')
        eq(log, [(first + tuple(args), {'k': 2})] * fails, 'calls')
        return fails > 1
    count = min(n, fails or n)
    if kind == 'function':
        f = loop_while(lambda: len(log) < n)(body)
        got = outcome(f)
        want_log = [((), {})] * count
    elif kind == 'method':
        seen = []

        def pred(o):
            seen.append(o)
            return len(log) < n

        class K:
            run = loop_while(pred)(body)

            def __bool__(self):
                return bool(n % 2)
        o = K()
        got = outcome(o.run, *args, k=3)
        want_log = [((o,) + tuple(args), {'k': 3})] * count
        check(all(s is o for s in seen), 'the predicate was not called with the object')
    else:
        class K:
            left = n

            @loop_while(x.left > 0)
            def run(self, *a, **k):
                self.left -= 1
                return body(self, *a, **k)
        o = K()
        got = outcome(o.run, *args, k=3)
        want_log = [((o,) + tuple(args), {'k': 3})] * count
    eq(got, ('exc', E0, (fails,)) if fails is not None and fails <= n else ('ok', None), 'outcome')
    eq(log, want_log, 'calls')
    return count >= 2


class Alt(Exception):
    pass


@prop.facet(st.tuples(st.lists(st.one_of(st.integers(0, 3), st.none(), st.just('empty'), st.just('alt'), st.just('other')), max_size=6),
                      st.sampled_from(['name', 'callable']), st.sampled_from([None, 0, 2.5]), st.sampled_from(['default', 'alt', 'tuple']),
                      st.sampled_from([None, 'method', 'callable']), st.booleans(), st.lists(st.sampled_from(['ok', 'ok', 'empty', 'alt']), min_size=6, max_size=6)),
            'an item was consumed and the queue was empty once', quick=600)
def consuming(case):
    """queue_get"""
    items, getter, timeout, exc, on_empty, own_method, bodies = case
    log = []

    class Q:
        def __init__(self):
            self.items = list(items)

        def get(self, timeout='missing'):
            log.append(('get', timeout))
            v = self.items.pop(0)
            if v == 'empty':
                raise queue.Empty()
            if v == 'alt':
                raise Alt()
            if v == 'other':
                raise E2('q')
            return v

        def fetch(self, timeout):
            log.append('fetch')
            return self.get(timeout)

    kw = {}
    if timeout is not None:
        kw['timeout'] = timeout
    empties = {'default': queue.Empty, 'alt': Alt, 'tuple': (queue.Empty, Alt)}[exc]
    if exc != 'default':
        kw['exception_empty'] = empties
    if on_empty == 'method':
        kw['method_to_execute_on_empty'] = 'idle'
    elif on_empty == 'callable':
        kw['method_to_execute_on_empty'] = lambda: log.append('idle callable')
    if own_method:
        kw['queue_get_method'] = lambda q, timeout: q.fetch(timeout)
    script = list(bodies)

    class K:
        def __init__(self):
            self.q = Q()

        def idle(self):
            log.append('idle method')

        @queue_get('q' if getter == 'name' else lambda self: self.q, **kw)
        def run(self, item):
            log.append(('item', item))
            b = script.pop(0)
            if b == 'empty':
                raise queue.Empty('mine')
            if b == 'alt':
                raise Alt('mine')
            return 'ran', item
    o = K()
    bi = 0
    consumed = empty = 0
    for v in items:
        del log[:]
        want_log = (['fetch'] if own_method else []) + [('get', timeout)]
        e = {'empty': queue.Empty, 'alt': Alt, 'other': E2}.get(v)
        if e is None:
            want_log.append(('item', v))
            b = bodies[bi]
            bi += 1
            want = {'ok': ('ok', ('ran', v)), 'empty': ('exc', queue.Empty, ('mine',)), 'alt': ('exc', Alt, ('mine',))}[b]
            consumed += 1
        elif issubclass(e, empties):
            want = 'ok', None
            if on_empty:
                want_log.append('idle ' + on_empty)
            empty += 1
        else:
            want = 'exc', e, (('q',) if v == 'other' else ())
        eq(outcome(o.run), want, 'outcome for %r' % (v,))
        eq(log, want_log, 'calls for %r' % (v,))
    return consumed and empty


ret = st.one_of(st.integers(0, 5), st.none(), st.lists(st.integers(0, 3), max_size=3).map(tuple), st.dictionaries(st.sampled_from('ab'), st.integers(0, 3), max_size=2),
                st.tuples(st.lists(st.integers(0, 3), max_size=2).map(tuple), st.dictionaries(st.sampled_from('ab'), st.integers(0, 3), max_size=2)),
                st.tuples(st.integers(0, 3), st.dictionaries(st.sampled_from('ab'), st.integers(0, 3), max_size=2)),
                st.tuples(st.lists(st.integers(0, 3), max_size=2).map(tuple), st.integers(0, 3)), st.lists(st.integers(), max_size=2), st.just('text'))


@prop.facet(st.tuples(st.lists(ret, min_size=1, max_size=3), st.lists(st.integers(0, 3), max_size=2), st.dictionaries(st.sampled_from('kl'), st.integers(0, 3), max_size=2)),
            'the result was a tuple or a dictionary', quick=600)
def chaining(case):
    """chain_functions; the last one in the list is called first"""
    rets, args, kwargs = case
    log = []

    def final(*a, **k):
        log.append(('final', a, k))
        return 'final'
    f = final
    for i, r in enumerate(rets):
        def link(*a, _i=i, _r=r, **k):
            log.append((_i, a, k))
            return _r
        f = chain_functions(link)(f)
    eq(f.__name__, 'final', 'name')
    a, k = tuple(args), kwargs
    want = []
    for i, r in reversed(list(enumerate(rets))):
        want.append((i, a, k))
        if isinstance(r, dict):
            a, k = (), r
        elif isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) and isinstance(r[1], dict):
            a, k = r
        elif isinstance(r, tuple):
            a, k = r, {}
        else:
            a, k = (r,), {}
    want.append(('final', a, k))
    for _ in range(2):
        del log[:]
        eq(f(*args, **kwargs), 'final', 'result')
        eq(log, want, 'calls made')
    return any(isinstance(r, (dict, tuple)) for r in rets)


@prop.facet(st.tuples(results, st.sampled_from(['arg', 'noarg', 'varargs', 'default', 'raises', 'type', 'kwonly']), st.booleans(),
                      st.lists(st.one_of(results, st.none()), max_size=4), st.booleans(),
                      st.sampled_from(['ok', 'raise', 'swallow', 'enterfails']), st.sampled_from([None, 5, []])), 'always', quick=400)
def wrappers(case):
    """chain_callables, default_return, return_as_list, wrap_callable_in_context_manager, static_var"""
    v, second, fails, items, nulls, ctx, start = case
    log = []

    def first(*a, **k):
        log.append(('first', a, k))
        if fails:
            raise E1('first')
        return v

    def arg(a):
        log.append(('second', a))
        return 'A', a

    def noarg():
        log.append(('second',))
        return 'N'

    def varargs(*a):
        log.append(('second',) + a)
        return 'V', a

    def default(a=3):
        log.append(('second', a))
        return 'D', a

    def raising(a):
        log.append(('second', a))
        raise E0('second')

    def typing(a):
        log.append(('second', a))
        raise TypeError('unrelated')
    fun = {'arg': arg, 'noarg': noarg, 'varargs': varargs, 'default': default, 'raises': raising, 'type': typing, 'kwonly': arg}[second]
    got = outcome(chain_callables(first, fun), 1, k=2)
    want_log = [('first', (1,), {'k': 2})]
    if fails:
        want = 'exc', E1, ('first',)
    else:
        want = {'arg': ('ok', ('A', v)), 'noarg': ('ok', 'N'), 'varargs': ('ok', ('V', (v,))), 'default': ('ok', ('D', v)), 'raises': ('exc', E0, ('second',)),
                'type': ('exc', TypeError, ('unrelated',)), 'kwonly': ('ok', ('A', v))}[second]
        want_log.append(('second',) if second == 'noarg' else ('second', v))
    eq((got, log), (want, want_log), 'chain_callables')

    del log[:]
    got = outcome(default_return(start)(first), 7)
    eq((got, log), (('exc', E1, ('first',)) if fails else ('ok', start if v is None else v), [('first', (7,), {})]), 'default_return')

    @return_as_list(nulls)
    def generate(a, k):
        for i in items:
            yield i
        if fails:
            raise E2(a, k)
    want = ('exc', E2, (1, 2)) if fails else ('ok', [i for i in items if i is not None or not nulls])
    for _ in range(2):
        eq(outcome(generate, 1, k=2), want, 'return_as_list')

    del log[:]

    class Ctx:
        def __init__(self, *a, **k):
            log.append(('init', a, k))

        def __enter__(self):
            log.append('enter')
            if ctx == 'enterfails':
                raise E2('enter')

        def __exit__(self, t, e, tb):
            log.append(('exit', t))
            return ctx == 'swallow'

    def body(*a, **k):
        log.append(('body', a, k))
        if ctx in ('raise', 'swallow'):
            raise E1('body')
        return v
    f = wrap_callable_in_context_manager(body, Ctx, 1, z=2)
    eq((f.__name__, log), ('body', []), 'nothing happens before the call')
    for _ in range(2):
        del log[:]
        got = outcome(f, 5, q=6)
        want_log = [('init', (1,), {'z': 2}), 'enter']
        if ctx != 'enterfails':
            want_log += [('body', (5,), {'q': 6}), ('exit', None if ctx == 'ok' else E1)]
        eq((got, log), ({'ok': ('ok', v), 'raise': ('exc', E1, ('body',)), 'swallow': ('ok', None), 'enterfails': ('exc', E2, ('enter',))}[ctx], want_log),
           'wrap_callable_in_context_manager')

    @static_var('counter', start)
    def counted():
        return counted.counter
    check(counted() is start and counted.counter is start, 'static_var')
    return True


arg = st.sampled_from([(), (1,), (2,), (1, 2), ('a',), (None,), (1.5,)])


@prop.facet(ops(op('call', arg, st.sampled_from([{}, {}, {'k': 1}, {'k': 2}])), op('fail'), op('other', arg), max_size=20), 'something was memoized and asked again',
            quick=600)
def memoizing(history):
    """memoize, by a single thread"""
    fail = [False]
    counter = [0]

    def fun(*args, **kwargs):
        counter[0] += 1
        if fail[0]:
            fail[0] = False
            raise E0(counter[0])
        return None if counter[0] % 5 == 0 else [counter[0], args, kwargs]

    def second(*args):
        counter[0] += 1
        return 'second', counter[0]
    dec, dec2 = memoize(fun), memoize(second)
    memo, memo2 = {}, {}
    n = hits = 0
    for o in history:
        if o[0] == 'fail':
            fail[0] = True
        elif o[0] == 'other':
            if o[1] not in memo2:
                n += 1
                memo2[o[1]] = 'second', n
            eq(dec2(*o[1]), memo2[o[1]], 'the other memoized function')
        else:
            args, kwargs = o[1:]
            if args in memo:
                hits += 1
                got = dec(*args, **kwargs)
                check(got is memo[args], 'called with %r got %r, not the same as previously', args, got)
            else:
                n += 1
                if fail[0]:
                    eq(outcome(dec, *args, **kwargs), ('exc', E0, (n,)), 'a failing call')
                else:
                    got = dec(*args, **kwargs)
                    eq(got, None if n % 5 == 0 else [n, args, kwargs], 'the first call')
                    memo[args] = got
        eq(counter[0], n, 'executions after %r' % (o,))
    return hits


@prop.facet(st.tuples(st.lists(st.lists(st.tuples(st.integers(0, 1), st.booleans()), min_size=1, max_size=4), min_size=2, max_size=3), S.schedules(), traces,
                      st.integers(0, 3)), 'two threads asked for the same', quick=600, thorough=12000)
def memoizing_concurrently(case):
    threads, schedule, trace, points = case
    running, values, executions = {}, {}, []

    @memoize
    def fun(a, fail):
        check(not running.get((a, fail)), 'executed by two threads at once')
        running[a, fail] = True
        executions.append((a, fail))
        for _ in range(points):
            S.current.point()
        running[a, fail] = False
        if fail and len(executions) % 2:
            raise E0()
        v = [a]
        check((a, fail) not in values, 'computed anew, though memoized')
        values[a, fail] = v
        return v

    def body(prog):
        def f():
            for a, fail in prog:
                try:
                    v = fun(a, fail)
                except E0:
                    check(fail, 'failed')
                    continue
                check(v is values[a, fail], 'got something else than was memoized')
        return f
    S.Scheduler(schedule, trace).run(*[body(p) for p in threads])
    return len(set(threads[0]) & set(threads[1])) > 0


@prop.facet(ops(op('call', st.sampled_from([(), (1,), (2,), (1, 2), ([],)]), st.sampled_from([{}, {}, {'k': 1}, {'k': 2}, {'l': 1, 'k': 2}])),
                op('call', st.just((1,)), st.just({})), op('wait', st.sampled_from([1, 3.5, 9, 12.25])), op('fail'), max_size=25, min_size=1), 'a value was served and another one has expired',
            quick=800)
def caching(history):
    """cache_memoize, by a single thread"""
    clock = FakeClock(1000.0 if len(history) % 2 else 0.0)
    fail = [False]
    counter = [0]

    @cache_memoize(10.125, clock)
    def fun(*args, **kwargs):
        counter[0] += 1
        if fail[0]:
            fail[0] = False
            raise E0(counter[0])
        return None if counter[0] % 5 == 0 else [counter[0], args, kwargs]
    memo = {}
    n = hits = expired = 0
    for o in history:
        if o[0] == 'wait':
            clock.advance(o[1])
        elif o[0] == 'fail':
            fail[0] = True
        else:
            args, kwargs = o[1:]
            if args == ([],):
                raises(TypeError, fun, *args)       # unhashable
                continue
            key = args, tuple(sorted(kwargs.items()))
            if key in memo and clock.now - memo[key][0] < 10.125:
                hits += 1
                check(fun(*args, **kwargs) is memo[key][1], 'value of %r was not the cached one', o)
            else:
                n += 1
                expired += key in memo
                if fail[0]:
                    eq(outcome(fun, *args, **kwargs), ('exc', E0, (n,)), 'a failing call')
                else:
                    got = fun(*args, **kwargs)
                    eq(got, None if n % 5 == 0 else [n, args, kwargs], 'a computed value')
                    memo[key] = clock.now, got
        eq(counter[0], n, 'executions after %r' % (o,))
    return hits and expired


@prop.facet(st.tuples(st.lists(st.lists(st.tuples(st.integers(0, 1), st.sampled_from([0, 0, 4, 11])), min_size=1, max_size=4), min_size=2, max_size=3), S.schedules(), traces,
                      st.integers(0, 2)), 'a value was computed by two threads, or served', quick=400, thorough=8000)
def caching_concurrently(case):
    threads, schedule, trace, points = case
    made = {}
    sch = S.Scheduler(schedule, trace)

    def now():
        return S.current.now

    @cache_memoize(10.125, now)
    def fun(a):
        began = now()
        v = [a]
        for _ in range(points):
            S.current.point()
        made[id(v)] = began, now(), a, v
        return v
    shared = []

    def body(prog):
        def f():
            import time
            for a, delay in prog:
                if delay:
                    time.sleep(delay)
                asked = now()
                n = len(made)
                v = fun(a)
                check(id(v) in made, 'a value nobody has computed: %r', v)
                began, ended, b, _ = made[id(v)]
                eq(b, a, 'argument the value was computed for')
                check(ended >= asked - 10.125, 'a value computed %s s before the call', asked - ended)
                shared.append(n == len(made))
        return f
    sch.run(*[body(p) for p in threads])
    return any(shared)
