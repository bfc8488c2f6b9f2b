"""P36: metrified structures behave as their originals and count what they do"""
import gc
import threading
import time
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, FakeClock, Violation
from gen import op
from execs import OnDemandExecutor, FIFOExecutor

from satella.coding.structures import CacheDict, LRUCacheDict, ExclusiveWritebackCache
from satella.instrumentation.metrics import getMetric, LabeledMetric, AggregateMetric, MetricLevel
from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedLRUCacheDict, MetrifiedExclusiveWritebackCache, MetrifiedThreadPoolExecutor

prop = Property('P36', ['plain structures are correct (P05, P06)', 'the value getter is a function of the key and the moment it is run'])
warnings.simplefilter('ignore')

key = st.integers(0, 5)
STALE, EXP, FAIL = 5, 20, 8


def value(m, suffix=''):
    """The only value with such suffix and no labels"""
    got = [md.value for md in m.to_metric_data().values if md.name == m.name + suffix and not md.labels]
    eq(len(got), 1, 'entries of %s%s' % (m.name, suffix))
    return got[0]


class Source:
    def __init__(self, present, clock):
        self.values = {k: 0 for k in present}
        self.calls = []
        self.clock = clock
        self.spent = 0

    def __call__(self, k):
        self.calls.append(k)
        self.clock.advance(k / 4)
        self.spent += k / 4
        if k not in self.values:
            raise KeyError(k)
        return k, self.values[k]


programs = st.lists(st.one_of(op('get', key), op('get', key), op('get', key), op('get', key), op('tick', st.sampled_from([1, 5.5, 6, 8.5, 20.5])), op('bump', key), op('remove', key), op('run'), op('invalidate', key), op('feed', key, st.integers(10, 15)),
                              op('del', key), op('set', key, st.integers(10, 15)), op('in', key), op('getd', key)), min_size=4, max_size=40)


@prop.facet(st.tuples(st.sampled_from(['cache', 'cache', 'lru']), st.booleans(), st.booleans(), st.sets(key), st.sets(st.sampled_from(['cache_hits', 'cache_miss', 'refreshes', 'how_long_refresh_takes', 'evictions'])), st.integers(1, 4), st.booleans(), programs),
            'hits, misses and refreshes counted', quick=1200)
def caches(case):
    """MetrifiedCacheDict and MetrifiedLRUCacheDict against the plain ones"""
    form, failures, default, present, watched, size, gone, program = case
    getMetric('').reset()
    ms = {n: getMetric('c.' + n, 'summary' if n == 'how_long_refresh_takes' else 'counter') for n in watched if form == 'lru' or n != 'evictions'}
    worlds = []
    for cls in ((CacheDict, MetrifiedCacheDict) if form == 'cache' else (LRUCacheDict, MetrifiedLRUCacheDict)):
        clock = FakeClock()
        src = Source(present, clock)
        ex = OnDemandExecutor()
        kwargs = dict(value_getter_executor=ex, cache_failures_interval=FAIL if failures else None, time_getter=clock, default_value_factory=(lambda: 'dflt') if default else None)
        if form == 'lru':
            kwargs['max_size'] = size
        worlds.append((cls(STALE, EXP, src, **kwargs, **(ms if cls.__name__.startswith('Metrified') else {})), src, ex, clock))
    plain = worlds[0][0]
    hits = misses = evictions = 0
    for o in program:
        outcomes = []
        if o[0] in ('get', 'in', 'getd'):
            if plain.has_info_about(o[1]):
                hits += 1
            else:
                misses += 1
        before = set(plain)
        for d, src, ex, clock in worlds:
            def act():
                if o[0] == 'get':
                    return d[o[1]]
                if o[0] == 'in':
                    return o[1] in d
                if o[0] == 'getd':
                    return d.get(o[1], 'nothing')
                if o[0] == 'tick':
                    clock.advance(o[1])
                elif o[0] == 'bump':
                    src.values[o[1]] = src.values.get(o[1], -1) + 1
                elif o[0] == 'remove':
                    src.values.pop(o[1], None)
                elif o[0] == 'run':
                    ex.run()
                elif o[0] == 'invalidate':
                    d.invalidate(o[1])
                elif o[0] == 'feed':
                    d.feed(o[1], o[2])
                elif o[0] == 'del':
                    del d[o[1]]
                elif o[0] == 'set':
                    d[o[1]] = o[2]
            try:
                outcomes.append(act())
            except KeyError:
                outcomes.append(KeyError)
        eq(outcomes[1], outcomes[0], 'outcome of %r' % (o,))
        eq(sorted(worlds[1][0]), sorted(worlds[0][0]), 'keys after %r' % (o,))
        eq(worlds[1][1].calls, worlds[0][1].calls, 'calls made after %r' % (o,))
        if o[0] in ('get', 'in', 'getd', 'feed', 'set') and (form == 'lru'):
            lost = before - set(plain) - {o[1]}
            evictions += len(lost)
        elif o[0] == 'run' and form == 'lru':
            evictions = None if 'evictions' in ms else 0
        src = worlds[1][1]
        if 'cache_hits' in ms:
            eq(value(ms['cache_hits'], ''), hits, 'hits after %r' % (o,))
        if 'cache_miss' in ms:
            eq(value(ms['cache_miss'], ''), misses, 'misses after %r' % (o,))
        if 'refreshes' in ms:
            eq(value(ms['refreshes'], ''), len(src.calls), 'refreshes after %r' % (o,))
        if 'how_long_refresh_takes' in ms:
            eq((value(ms['how_long_refresh_takes'], '.count'), value(ms['how_long_refresh_takes'], '.sum')), (len(src.calls), src.spent), 'how long have refreshes taken, after %r' % (o,))
        if 'evictions' in ms:
            if evictions is None:
                evictions = value(ms['evictions'])
            eq(value(ms['evictions'], ''), evictions, 'evictions after %r' % (o,))
    return bool(hits and misses and ms)


wb_programs = st.lists(st.one_of(op('get', key), op('get', key), op('set', key, st.integers(10, 15)), op('del', key), op('run', st.integers(1, 3))), min_size=3, max_size=30)


@prop.facet(st.tuples(st.booleans(), st.booleans(), st.sets(key), wb_programs), 'hits and misses', quick=300)
def writeback(case):
    """MetrifiedExclusiveWritebackCache"""
    store_errors, count, present, program = case
    getMetric('').reset()
    hits, misses = getMetric('h', 'counter'), getMetric('m', 'counter')
    storage = {k: k for k in present}
    ex = FIFOExecutor()
    d = MetrifiedExclusiveWritebackCache(storage.__setitem__, storage.__getitem__, lambda k: storage.pop(k, None), executor=ex, store_key_errors=store_errors, **(dict(cache_hits=hits, cache_miss=misses) if count else {}))
    now = dict(storage)
    cached = set()
    h = m = 0
    for o in program:
        if o[0] == 'get':
            if o[1] in cached:
                h += 1
            else:
                m += 1
            if o[1] in now:
                eq(d[o[1]], now[o[1]], 'value read')
                cached.add(o[1])
            else:
                raises(KeyError, lambda: d[o[1]])
                if store_errors:
                    cached.add(o[1])
        elif o[0] == 'set':
            d[o[1]] = now[o[1]] = o[2]
            cached.add(o[1])
        elif o[0] == 'del' and (store_errors or o[1] not in cached):
            del d[o[1]]
            now.pop(o[1], None)
            if store_errors:
                cached.add(o[1])
        elif o[0] == 'run':
            ex.run(o[1])
        eq((value(hits), value(misses)), (h, m) if count else (0, 0), 'hits and misses')
    ex.run()
    eq(storage, now, 'the storage')
    return bool(h and m and count)


@prop.facet(st.tuples(st.booleans(), st.integers(0, 4), st.integers(1, 3)), 'with entries waiting', quick=30, thorough=300)
def waiting(case):
    """entries_waiting and waiting_tasks follow the queues"""
    pool, n, workers = case
    getMetric('').reset()
    m = getMetric('w', 'callable')
    gate = threading.Event()
    started = threading.Semaphore(0)

    def block(*args):
        started.release()
        gate.wait(30)

    from concurrent.futures import ThreadPoolExecutor
    if pool:
        ex = MetrifiedThreadPoolExecutor(workers, waiting_tasks=m)
        submit = lambda i: ex.submit(block, i)
    else:
        ex = ThreadPoolExecutor(workers)
        d = MetrifiedExclusiveWritebackCache(block, lambda k: k, executor=ex, entries_waiting=m)
        submit = lambda i: d.__setitem__(i, 1)
    try:
        eq(value(m), 0, 'entries waiting at the beginning')
        for i in range(workers):
            submit(i)
        for i in range(workers):
            check(started.acquire(timeout=20), 'task not started')
        for i in range(n):
            submit(100 + i)
            eq(value(m), i + 1, 'entries waiting')
        gate.set()
        for i in range(n):
            check(started.acquire(timeout=20), 'task not started')
        eq(value(m), 0, 'entries waiting at the end')
    finally:
        gate.set()
        ex.shutdown()
    return n > 0


class Planned(Exception):
    pass


@prop.facet(st.tuples(st.integers(1, 4), st.sampled_from(['plain', 'labeled', 'aggregate', 'none']), st.lists(st.tuples(st.sampled_from(['ok', 'ok', 'fail', 'sleep']), st.integers(0, 5)), max_size=10), st.sampled_from(['', 'prefix']),
                      st.sampled_from(['good', 'good', 'none', 'bad']), st.sampled_from(['keep', 'drop', 'with', 'wait']), st.sampled_from([MetricLevel.RUNTIME, MetricLevel.DEBUG])),
            'more tasks than workers', quick=120, thorough=2000, shrink=False)
def pools(case):
    """MetrifiedThreadPoolExecutor executes everything, once, and measures each of them"""
    workers, wrap, tasks, prefix, init, ending, level = case
    getMetric('').reset()
    waiting, executing = getMetric('w', 'summary'), getMetric('e', 'summary')
    given = {'plain': (waiting, executing), 'labeled': (LabeledMetric(waiting, k=1), LabeledMetric(executing, k=1)), 'aggregate': (AggregateMetric(waiting), AggregateMetric(executing)), 'none': (None, None)}[wrap]
    ready, threads, done = [], set(), []
    lock = threading.Lock()

    def initializer(a, b):
        with lock:
            ready.append((threading.current_thread(), a, b))
        if init == 'bad':
            raise Planned()

    def job(what, x, *, y):
        with lock:
            threads.add(threading.current_thread())
            done.append((what, x))
        if what == 'sleep':
            time.sleep(0.004)
        if what == 'fail':
            raise Planned(x)
        return x, y

    kwargs = {} if init == 'none' else dict(initializer=initializer, initargs=(1, 2))
    import logging
    logging.getLogger('concurrent.futures').setLevel(logging.CRITICAL + 1)
    ex = MetrifiedThreadPoolExecutor(workers, prefix, time_spent_waiting=given[0], time_spent_executing=given[1], metric_level=level, **kwargs)
    futures = []
    broken = 0
    for what, x in tasks:
        try:
            futures.append((what, x, ex.submit(job, what, x, y=x + 1)))
        except RuntimeError:        # BrokenThreadPool is one
            check(init == 'bad', 'the pool is broken')
            broken += 1
    if ending == 'drop':
        threads_ref = [t for t in threading.enumerate() if ready and t in [r[0] for r in ready]]
        del ex
        gc.collect()
    elif ending == 'with':
        with ex:
            pass
    elif ending == 'keep':
        ex.shutdown(wait=False)
    for what, x, f in futures:
        if init == 'bad':
            e = f.exception(timeout=30)
            check(isinstance(e, RuntimeError), 'a task of a broken pool ended with %r', e)
        elif what == 'fail':
            e = f.exception(timeout=30)
            check(type(e) is Planned and e.args == (x,), 'raised %r', e)
        else:
            eq(f.result(timeout=30), (x, x + 1), 'result')
    if ending in ('keep', 'wait'):
        ex.shutdown(wait=True)
        raises(RuntimeError, ex.submit, job)
    if init == 'bad':
        eq(done, [], 'tasks executed without being initialized')
        return False
    eq(sorted(done), sorted((w, x) for w, x, _ in futures), 'tasks executed')
    check(len(threads) <= workers, '%s threads', len(threads))
    if init == 'good':
        eq({t for t, _, _ in ready} >= threads, True, 'threads that were initialized')
        eq({r[1:] for r in ready} <= {(1, 2)}, True, 'initargs')
    if prefix:
        check(all(t.name.startswith(prefix) for t in threads), 'names of threads are %s', [t.name for t in threads])
    deadline = time.monotonic() + 20
    while ending == 'drop' and any(t.is_alive() for t in threads) and time.monotonic() < deadline:
        time.sleep(0.001)
    check(not any(t.is_alive() for t in threads), 'threads are still there')
    n = len(tasks) if wrap != 'none' and level == MetricLevel.RUNTIME else 0
    for m, least in ((waiting, 0), (executing, 0.004 * sum(w == 'sleep' for w, _ in tasks))):
        eq(value(m, '.count'), n, 'measurements')
        if n:
            check(value(m, '.sum') >= least * 0.99, 'measured %s, expected at least %s', value(m, '.sum'), least)
    return len(tasks) > workers
