"""P43: transactions, lazily loaded objects, tracing and Cassandra futures, randomness"""
import sched as S           # before satella
import collections
import concurrent.futures
import functools
import logging
import sqlite3
import string
import threading
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, patched, HarnessError
from gen import op

from opentracing.mocktracer import MockTracer
from cassandra.cluster import ResponseFuture
from cassandra.query import SimpleStatement
from satella.cassandra import wrap_future, parallel_for
from satella.dao import Loadable, must_be_loaded
from satella.db import transaction
from satella.opentracing import trace_exception, trace_function, trace_future, set_maximum_traceback_length
from satella.random import shuffle_together, random_binary, random_word
from satella.warnings import mark_temporarily_disabled

prop = Property('P43', ['connections, tracers and Cassandra are stand-ins or mocks, save for sqlite3 in memory'])
warnings.simplefilter('ignore')


class Oops(Exception):
    pass


class Fault(Exception):
    pass


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class Cursor:
    def __init__(self, conn):
        self.conn = conn

    def execute(self, x):
        self.conn.log.append(('execute', self.conn.no, x))

    def close(self):
        self.conn.act('cursor close')


class Connection:
    made = 0
    log = None
    faults = frozenset()

    def __init__(self):
        Connection.made += 1
        self.no = Connection.made
        self.closed = False

    def act(self, what):
        self.log.append((what, self.no))
        if self.closed:
            raise AssertionError('used after having been closed')
        if what in Connection.faults:
            raise Fault(what)

    def cursor(self):
        self.act('cursor')
        return Cursor(self)

    def commit(self):
        self.act('commit')

    def rollback(self):
        self.act('rollback')

    def close(self):
        self.act('close')
        self.closed = True


class CallableConnection(Connection):
    """Such as those of sqlite3"""
    def __call__(self, sql):
        raise AssertionError('called')


class Pool:
    def get(self):
        return Connection()

    def __call__(self):
        return Connection()


faults = st.sampled_from([(), (), (), (), ('commit',), ('rollback',), ('cursor close',), ('commit', 'cursor close'), ('rollback', 'cursor close'), ('cursor',)])
rounds = st.lists(st.tuples(st.sampled_from([None, None, Oops, KeyboardInterrupt, GeneratorExit]), faults, st.integers(0, 3)), min_size=1, max_size=5)


@prop.facet(st.tuples(st.sampled_from(['connection', 'callable connection', 'function', 'lambda', 'partial', 'method', 'object', 'class']), st.booleans(), st.booleans(), rounds), 'something failed', quick=800, thorough=15000)
def transactions(case):
    """A transaction object used repeatedly, with failures injected: what is called upon the connection, in which order, and what comes out"""
    kind, close, log_it, rounds_ = case
    Connection.made, Connection.log, Connection.faults = 0, [], frozenset()
    log = Connection.log

    def function():
        return Connection()
    single = kind in ('connection', 'callable connection')
    source = {'connection': Connection, 'callable connection': CallableConnection}[kind]() if single else {'function': function, 'lambda': lambda: Connection(), 'partial': functools.partial(Connection), 'method': Pool().get, 'object': Pool(), 'class': Connection}[kind]
    if single and close:
        rounds_ = rounds_[:1]
    args = {}
    if close:
        args['close_the_connection_after'] = True
    if not log_it:
        args['log_exception'] = False
    t = transaction(source, **args)
    logger, handler = logging.getLogger('satella.db'), Records()
    logger.addHandler(handler)
    propagate, logger.propagate = logger.propagate, False
    interesting, no = False, 1
    try:
        for exc, faults_, statements in rounds_:
            Connection.faults = frozenset(faults_)
            del log[:], handler.records[:]
            instance = exc() if exc is not None else None
            entered, came_out = False, None
            try:
                with t as cur:
                    entered = True
                    check(type(cur) is Cursor, 'cursor is %r', cur)
                    for i in range(statements):
                        cur.execute(i)
                    if instance is not None:
                        raise instance
            except BaseException as e:
                if not isinstance(e, (Oops, Fault, KeyboardInterrupt, GeneratorExit)):
                    raise
                came_out = e
            if 'cursor' in faults_:
                check(not entered and isinstance(came_out, Fault), 'entered without a cursor')
                return interesting
            end = 'commit' if exc is None else 'rollback'
            want = [('cursor', no)] + [('execute', no, i) for i in range(statements)] + [(end, no), ('cursor close', no)] + ([('close', no)] if close else [])
            eq(log, want, 'calls')
            failed = [f for f in (end, 'cursor close') if f in faults_]
            if failed:
                interesting = True
                check(isinstance(came_out, Fault) and came_out.args[0] in failed, 'came out %r, %r had failed', came_out, failed)
            else:
                check(came_out is instance, 'came out %r, expected %r', came_out, instance)
            eq(len(handler.records), int(exc is not None and log_it), 'log entries')
            if handler.records:
                check(handler.records[0].exc_info[1] is instance, 'log entry is about %r', handler.records[0].exc_info)
            interesting = interesting or exc is not None
            if close:
                no += 1
        eq(Connection.made, 1 if not close else len(rounds_), 'connections made')
    finally:
        logger.removeHandler(handler)
        logger.propagate = propagate
    return interesting


sql_ops = st.lists(st.tuples(st.lists(st.tuples(st.sampled_from(['insert', 'insert', 'delete']), st.integers(0, 9)), max_size=4), st.sampled_from([None, None, Oops, 'sql'])), min_size=1, max_size=6)


@prop.facet(st.tuples(sql_ops, st.booleans()), 'a transaction was rolled back', quick=300, thorough=5000)
def sqlite(case):
    """Histories of transactions upon sqlite3: contents are what the committed ones made"""
    txs, getter = case
    conn = sqlite3.connect(':memory:')
    rolled = False
    try:
        conn.execute('CREATE TABLE t (n INTEGER)')
        conn.commit()
        model = collections.Counter()
        t = transaction((lambda: conn) if getter else conn, log_exception=False)
        for statements, ending in txs:
            after = collections.Counter(model)
            try:
                with t as cur:
                    for what, n in statements:
                        if what == 'insert':
                            cur.execute('INSERT INTO t VALUES (?)', (n,))
                            after[n] += 1
                        else:
                            cur.execute('DELETE FROM t WHERE n = ?', (n,))
                            after[n] = 0
                    if ending == 'sql':
                        cur.execute('NOT SQL')
                    elif ending is not None:
                        raise ending()
                check(ending is None, 'exception was swallowed')
                model = after
            except (Oops, sqlite3.OperationalError):
                check(ending is not None, 'failed')
                rolled = rolled or bool(statements)
            raises(sqlite3.ProgrammingError, cur.execute, 'SELECT 1')
            eq(conn.in_transaction, False, 'is a transaction pending')
            got = sorted(r[0] for r in conn.execute('SELECT n FROM t').fetchall())
            eq(got, sorted((+model).elements()), 'rows')
    finally:
        conn.close()
    return rolled


class Thing(Loadable):
    def __init__(self, script, log, **kwargs):
        self.script, self.log = list(script), log
        super().__init__(**kwargs)

    def refresh(self, load_from=None):
        self.log.append(('refresh', load_from))
        if self.script and self.script.pop(0):
            raise Fault('cannot be loaded')
        super().refresh(load_from)

    @must_be_loaded
    def method(self, *args, **kwargs):
        """documented"""
        self.log.append(('method', args, kwargs))
        if args == ('fail',):
            raise Oops()
        return args, kwargs

    @property
    @must_be_loaded
    def value(self):
        self.log.append('value')
        return 5

    def other(self):
        return 'other'


@prop.facet(st.tuples(st.sampled_from([None, False, True]), st.lists(st.booleans(), max_size=4), st.lists(st.sampled_from(['method', 'method', 'fail', 'value', 'refresh', 'load', 'other']), min_size=1, max_size=8)), 'loading failed or was asked for explicitly', quick=500, thorough=8000)
def loading(case):
    """Histories of method calls upon loadable objects: loaded before the first one needing it, once"""
    lazy, script, program = case
    log, model_script, loaded = [], list(script), False
    kwargs = {} if lazy is None else {'load_lazy': lazy}

    def fails():
        return bool(model_script and model_script.pop(0))
    if not lazy:
        if fails():
            raises(Fault, Thing, script, log, **kwargs)
            eq(log, [('refresh', None)], 'calls')
            return True
        loaded = True
    t = Thing(script, log, **kwargs)
    eq(log, [('refresh', None)] if not lazy else [], 'calls by the constructor')
    interesting = False
    for o in program:
        del log[:]
        want, failure = [], None
        if o in ('refresh', 'load'):
            interesting = True
            want.append(('refresh', None if o == 'refresh' else {'a': 1}))
            failure = Fault if fails() else None
            loaded = loaded or failure is None
            call = t.refresh if o == 'refresh' else functools.partial(t.refresh, {'a': 1})
            value = None
        elif o == 'other':
            call, value = t.other, 'other'
        else:
            if not loaded:
                want.append(('refresh', None))
                if fails():
                    failure = Fault
                    interesting = True
                else:
                    loaded = True
            if failure is None:
                want.append('value' if o == 'value' else ('method', ('fail',) if o == 'fail' else (1, 2), {} if o == 'fail' else {'k': 3}))
                if o == 'fail':
                    failure = Oops
            call = (lambda: t.value) if o == 'value' else (functools.partial(t.method, 'fail') if o == 'fail' else functools.partial(t.method, 1, 2, k=3))
            value = 5 if o == 'value' else ((1, 2), {'k': 3})
        if failure is not None:
            raises(failure, call)
        else:
            eq(call(), value, 'result of %s' % (o,))
        eq(log, want, 'calls upon %s' % (o,))
    eq((Thing.method.__name__, Thing.method.__doc__), ('method', 'documented'), 'name and documentation')
    return interesting


calls = st.recursive(st.tuples(st.integers(0, 2), st.integers(0, 5), st.booleans(), st.just([])), lambda x: st.tuples(st.integers(0, 2), st.integers(0, 5), st.booleans(), st.lists(x, max_size=2)), max_leaves=6)
tag_specs = st.tuples(st.one_of(st.none(), st.dictionaries(st.sampled_from(['a', 'b', 'error']), st.sampled_from([1, 'x']), max_size=2)), st.sampled_from([None, 'dict', 'list', 'empty']))


@prop.facet(st.tuples(st.lists(tag_specs, min_size=3, max_size=3), st.lists(calls, min_size=1, max_size=3), st.booleans()), 'calls were nested, or some failed', quick=500, thorough=8000)
def functions(case):
    """Traced functions calling one another: a span for each call, with its tags only, and the outcome untouched"""
    specs, program, with_span_tags = case
    tracer = MockTracer()
    funs, originals, want = [], [], []
    interesting = False
    for i, (tags, factory) in enumerate(specs):
        fac = [('arg', lambda n, fail, sub, **kw: n), ('kw', lambda *args, **kw: sorted(kw)), ('a', lambda *args, **kw: 'from factory')]
        args = {}
        if tags is not None:
            args['tags'] = tags
        if factory is not None:
            args['tags_factory'] = [] if factory == 'empty' else (dict(fac) if factory == 'dict' else fac)
        originals.append(dict(tags) if tags is not None else None)

        def fun(n, fail, sub, **kw):
            """documented"""
            if with_span_tags:
                tracer.active_span.set_tag('marker', n)
            results = []
            for s in sub:
                try:
                    results.append(call(s))
                except Oops as e:
                    results.append(e)
            if fail:
                raise Oops(n)
            return n, results
        funs.append(trace_function(tracer, 'span %s' % (i,), **args)(fun))
        eq(funs[-1].__doc__, 'documented', 'documentation')

    def call(c):
        i, n, fail, sub = c
        return funs[i](n, fail, sub, extra=1) if n % 2 else funs[i](n, fail, sub)

    def expect(c, parent):
        """Spans finish children first"""
        nonlocal interesting
        i, n, fail, sub = c
        interesting = interesting or bool(sub) or fail
        me = object()
        outcomes = [expect(s, me) for s in sub]
        tags = dict(originals[i] or {})
        if specs[i][1] in ('dict', 'list'):
            tags.update(arg=n, kw=['extra'] if n % 2 else [], a='from factory')
        if with_span_tags:
            tags['marker'] = n
        if fail:
            tags['error'] = True
        want.append(('span %s' % (i,), tags, n if fail else None, me, parent))
        return ('raised', n) if fail else ('ok', (n, outcomes))

    def outcome(c):
        try:
            return 'ok', simplify(call(c))
        except Oops as e:
            return 'raised', e.args[0]

    def simplify(r):
        n, subs = r
        return n, [('raised', s.args[0]) if isinstance(s, Oops) else ('ok', simplify(s)) for s in subs]

    for c in program:
        eq(outcome(c), expect(c, None), 'outcome')
    spans = tracer.finished_spans()
    eq(len(spans), len(want), 'spans finished')
    ids = {}
    for span, (name, tags, failed, me, parent) in zip(spans, want):
        ids[me] = span.context.span_id
        eq((span.operation_name, span.tags), (name, tags), 'name and tags')
        errors = [l.key_values for l in span.logs]
        eq([e['error.object'].args[0] for e in errors], [failed] if failed is not None else [], 'errors logged')
    for span, (name, tags, failed, me, parent) in zip(spans, want):
        eq(span.parent_id, ids[parent] if parent is not None else None, 'parent of a span')
    for (tags, _), o in zip(specs, originals):
        eq(tags, o, 'tags given')
    check(tracer.active_span is None, 'a span is left active')
    return interesting


class FakeResponse(ResponseFuture):
    """Cassandra's future, without Cassandra"""
    def __init__(self):
        self.value = self.exc = None
        self.done = False
        self.callbacks, self.errbacks = [], []

    def add_callback(self, fn, *args, **kwargs):
        if self.done and self.exc is None:
            fn(self.value, *args, **kwargs)
        self.callbacks.append((fn, args, kwargs))
        return self

    def add_errback(self, fn, *args, **kwargs):
        if self.done and self.exc is not None:
            fn(self.exc, *args, **kwargs)
        self.errbacks.append((fn, args, kwargs))
        return self

    def complete(self, value=None, exc=None):
        self.value, self.exc, self.done = value, exc, True
        for fn, args, kwargs in (self.callbacks if exc is None else self.errbacks):
            fn(value if exc is None else exc, *args, **kwargs)

    def result(self):
        if self.exc is not None:
            raise self.exc
        return self.value


def failed_exception():
    try:
        raise Oops('the reason')
    except Oops as e:
        return e


@prop.facet(st.tuples(st.sampled_from(['future', 'future', 'cassandra']), st.booleans(), st.sampled_from(['result', 'none', 'exception', 'fresh exception', 'cancel']), st.integers(1, 2)), 'it failed or was cancelled', quick=60, thorough=200)
def futures(case):
    """Spans of futures are finished once, when these are done in any way, with the exception if there was one"""
    kind, before, ending, times = case
    tracer = MockTracer()
    spans = [tracer.start_span('s%s' % (i,)) for i in range(times)]
    finished = [0] * times
    for i, s in enumerate(spans):
        def finish(i=i, original=s.finish):
            finished[i] += 1
            original()
        s.finish = finish
    future = FakeResponse() if kind == 'cassandra' else concurrent.futures.Future()
    exc = {'exception': failed_exception, 'fresh exception': lambda: Oops('never raised')}.get(ending, lambda: None)()
    if kind == 'cassandra' and ending == 'cancel':
        return False

    def complete():
        if kind == 'cassandra':
            future.complete(5 if ending == 'result' else None, exc)
        elif ending == 'cancel':
            check(future.cancel(), 'cannot be cancelled')
            future.set_running_or_notify_cancel()
        elif exc is not None:
            future.set_exception(exc)
        else:
            future.set_result(5 if ending == 'result' else None)
    errors = Records()
    logger = logging.getLogger('concurrent.futures')
    logger.addHandler(errors)
    propagate, logger.propagate = logger.propagate, False
    try:
        if before:
            complete()
        for s in spans:
            trace_future(future, s)
        if not before:
            eq(finished, [0] * times, 'finished before the future is done')
            complete()
    finally:
        logger.removeHandler(errors)
        logger.propagate = propagate
    eq([r.getMessage() for r in errors.records], [], 'errors in callbacks')
    eq(finished, [1] * times, 'times the spans were finished')
    for s in spans:
        eq(s.tags, {'error': True} if exc is not None else {}, 'tags of the span')
        eq(len(s.logs), int(exc is not None), 'log entries of the span')
        if exc is not None:
            e = s.logs[0].key_values
            check(e['error.object'] is exc and e['error.kind'] is Oops and e['message'] == str(exc), 'logged %r', e)
    return exc is not None or ending == 'cancel'


def deeper(depth, marker):
    local_marker = marker
    if depth:
        return deeper(depth - 1, marker)
    raise Oops('message %s' % (marker,))


@prop.facet(st.tuples(st.integers(0, 4), st.sampled_from(['handling', 'explicit', 'explicit outside', 'explicit while handling another', 'type only', 'no traceback', 'nothing', 'no span']), st.sampled_from([None, None, 10, 200, 3000]), st.sampled_from([None, None, 50, 100000]), st.sampled_from(['foo', 'bar'])), 'the stack is more than one frame deep', quick=200, thorough=4000)
def exceptions(case):
    """Exceptions attached to spans: the exception told, with its own stack, up to the length asked for"""
    depth, how, limit, default, marker = case
    tracer = MockTracer()
    span = tracer.start_span('s')
    kwargs = {} if limit is None else {'max_tb_length': limit}
    set_maximum_traceback_length(65536 if default is None else default)
    try:
        if how == 'nothing':
            trace_exception(span, **kwargs)
            eq((span.tags, span.logs), ({}, []), 'span without an exception')
            return False
        try:
            deeper(depth, marker)
        except Oops as e:
            exc = e
            if how == 'handling':
                trace_exception(span, **kwargs)
            elif how == 'no span':
                trace_exception(None, **kwargs)
                return False
            elif how == 'explicit':
                trace_exception(span, type(e), e, e.__traceback__, **kwargs)
            elif how == 'type only':
                trace_exception(span, type(e), **kwargs)
        if how == 'explicit outside':
            trace_exception(span, type(exc), exc, exc.__traceback__, **kwargs)
        elif how == 'no traceback':
            trace_exception(span, type(exc), exc, **kwargs)
        elif how == 'explicit while handling another':
            try:
                raise KeyError('another one')
            except KeyError:
                trace_exception(span, type(exc), exc, exc.__traceback__, **kwargs)
    finally:
        set_maximum_traceback_length(65536)
    eq(span.tags, {'error': True}, 'tags')
    eq(len(span.logs), 1, 'log entries')
    e = span.logs[0].key_values
    eq({k: x for k, x in e.items() if k != 'stack'}, {'event': 'error', 'message': str(exc), 'error.object': exc, 'error.kind': Oops}, 'log entry')
    allowed = limit or default or 65536
    check(len(e['stack']) <= allowed, 'stack is %s characters long', len(e['stack']))
    check('another one' not in e['stack'], 'stack mentions another exception')
    if how != 'no traceback':
        if allowed >= 100000:
            eq(e['stack'].count('* deeper') or e['stack'].count('in deeper'), depth + 1, 'frames in the stack')
        if allowed >= 3000 and depth < 3:
            check('local_marker: %r' % (marker,) in e['stack'], 'variables are missing from %s', e['stack'])
            check(str(exc) in e['stack'], 'exception is missing from the stack')
    return depth > 0


@prop.facet(st.tuples(st.booleans(), st.sampled_from(['result', 'exception']), st.sampled_from(['str', 'statement', 'list', 'mixed list', 'iterator', 'short list']), st.lists(st.one_of(st.none(), st.tuples(st.integers(0, 9)), st.lists(st.integers(), max_size=2)), max_size=6), st.sets(st.integers(0, 5), max_size=2)), 'queries were made', quick=300, thorough=5000)
def cassandra(case):
    """Futures of Cassandra as standard ones, and parallel queries: each sent before any result is awaited, results in order"""
    before, ending, kind, arguments, failing = case
    f = FakeResponse()
    exc = Oops()
    if before:
        f.complete('v', exc if ending == 'exception' else None)
    fut = wrap_future(f)
    check(isinstance(fut, concurrent.futures.Future), 'got %r', fut)
    check(wrap_future(fut) is fut, 'a future was wrapped')
    check(not fut.cancel(), 'can be cancelled')
    if not before:
        check(fut.running() and not fut.done(), 'is done already')
        f.complete('v', exc if ending == 'exception' else None)
    check(fut.done(), 'is not done')
    if ending == 'exception':
        check(fut.exception() is exc, 'exception is %r', fut.exception())
    else:
        eq(fut.result(), 'v', 'result')
    sent, awaited = [], []
    statement = SimpleStatement('SELECT 2')

    class Result(FakeResponse):
        def result(self):
            awaited.append(self)
            check(len(sent) == expected_count, 'a result was awaited before everything was sent')
            return super().result()

    class Session:
        def execute_async(self, *args):
            r = Result()
            r.complete('result %s' % (len(sent),), Oops(len(sent)) if len(sent) in failing else None)
            sent.append(args)
            return r
    queries = {'str': 'SELECT 1', 'statement': statement, 'list': ['q%s' % (i,) for i in range(len(arguments))], 'mixed list': [statement if i % 2 else 'q' for i in range(len(arguments))], 'iterator': iter(['q%s' % (i,) for i in range(len(arguments))]),
               'short list': ['q'] * (len(arguments) // 2)}[kind]
    expected_queries = ['SELECT 1'] * len(arguments) if kind == 'str' else ([statement] * len(arguments) if kind == 'statement' else (['q%s' % (i,) for i in range(len(arguments))] if kind == 'iterator' else list(queries)))
    expected = [(q,) if a is None else (q, a) for q, a in zip(expected_queries, arguments)]
    expected_count = len(expected)
    results = parallel_for(Session(), queries, iter(arguments) if ending == 'result' else list(arguments))
    for i in range(expected_count):
        if i in failing:
            eq(raises(Oops, next, results).args, (i,), 'exception of a query')
            eq(sent, expected, 'queries sent')
            return True
        eq(next(results), 'result %s' % (i,), 'result')
    raises(StopIteration, next, results)
    eq(sent, expected, 'queries sent')
    return expected_count > 0


@prop.facet(st.tuples(st.lists(st.sampled_from(['list', 'tuple', 'str', 'range']), max_size=4), st.integers(0, 12), st.integers(0, 40), st.one_of(st.none(), st.text(min_size=1, max_size=5), st.lists(st.integers(), min_size=1, max_size=4))), 'several sequences were shuffled', quick=300, thorough=5000)
def randomness(case):
    """Shuffled sequences remain in step with each other; random words and bytes are of what was asked for"""
    kinds, n, length, alphabet = case
    seqs = [{'list': [i * 10 for i in range(n)], 'tuple': tuple('t%s' % (i,) for i in range(n)), 'str': string.ascii_letters[:n], 'range': range(n)}[k] for k in kinds]
    before = [list(s) for s in seqs]
    got = shuffle_together(*seqs)
    eq([list(s) for s in seqs], before, 'arguments afterwards')
    check(isinstance(got, list) and all(isinstance(x, list) for x in got), 'got %r', got)
    eq(len(got), len(seqs), 'sequences')
    if seqs:
        eq(sorted(zip(*got)), sorted(zip(*seqs)), 'elements at same places')
        eq([len(x) for x in got], [n] * len(seqs), 'lengths')
    if kinds and n == 12:
        check(any(shuffle_together(*seqs) != before for _ in range(20)), 'is not shuffled')
        firsts = {shuffle_together(*seqs)[0][0] for _ in range(300)}
        check(len(firsts) > 6, 'only %s can come first', firsts)
    if alphabet is None:
        w = random_word(length)
        check(set(w) <= set(string.ascii_lowercase), 'got %r', w)
    elif isinstance(alphabet, str):
        w = random_word(length, alphabet)
        check(isinstance(w, str) and set(w) <= set(alphabet), 'got %r', w)
    else:
        w = random_word(length, alphabet, tuple)
        check(isinstance(w, tuple) and set(w) <= set(alphabet), 'got %r', w)
    eq(len(w), length, 'length of a word')
    b = random_binary(length)
    eq((type(b), len(b)), (bytes, length), 'random bytes')
    if length >= 20:
        check(b != random_binary(length), 'same bytes twice')
        if alphabet is None:
            check(len(set(random_word(400))) == 26, 'not every letter is used')
    called = []
    disabled = mark_temporarily_disabled('the reason')(lambda *args, **kwargs: called.append(1))
    check('the reason' in str(raises(NotImplementedError, disabled, *range(n % 3))), 'reason is not told')
    eq(called, [], 'calls to a disabled function')
    return len(kinds) > 1 and n > 1
