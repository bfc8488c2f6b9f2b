import sched as S
import time
from concurrent.futures import ThreadPoolExecutor
from threading import Thread
from hypothesis import strategies as st
from harness import *
from gen import *
from execs import *
from satella.coding.structures import CacheDict, LRUCacheDict, LRU

prop = Property('P05', ['the value getter is a function of the key and the moment it is run',
                        'recency after re-feeding an already present key is left unspecified'])
KEYS = [0, 1, 2, None, '']
key = st.sampled_from(KEYS)
val = st.sampled_from([10, 11, 12, None, 0, ''])


def valued(k, version):
    """Value that a source has for a key; some are false, which makes no difference"""
    return [None, 0, '', ()][version] if k == 1 and version < 4 else (k, version)


class Source:
    """What the value getter reads from"""

    def __init__(self, present):
        self.values = {k: 0 for k in present}
        self.calls = []

    def __call__(self, k):
        self.calls.append(k)
        if k not in self.values:
            raise KeyError(k)
        return valued(k, self.values[k])

    def bump(self, k):
        self.values[k] = self.values.get(k, -1) + 1


STALE, EXP, FAIL = 5, 20, 8

cd_ops = ops(op('get', key), op('get', key), op('get', key), op('tick', st.sampled_from([1, 4, 5, 6, 8, 9, 15, 20, 21])),
             op('tick', st.sampled_from([1, 4, 5, 6, 8, 9, 15, 20, 21])), op('bump', key), op('remove', key),
             op('run'), op('invalidate', key), op('feed', key, val), op('feedts', key, val, st.integers(0, 25)),
             op('info', key), op('del', key), op('set', key, val), op('len'))


@prop.facet(st.tuples(st.booleans(), st.booleans(), st.booleans(), st.booleans(), st.sets(key), cd_ops),
            'a stale read served the old value while a refresh was pending, or an expired/failed one was handled',
            quick=4000)
def cache_dict(case):
    cache_failures, use_default, strings, late, present, program = case
    clock = FakeClock(1000 if late else 6)
    src = Source(present)
    ex = OnDemandExecutor()
    args = ('5s', '20 s') if strings else (STALE, EXP)
    d = CacheDict(*args, src, value_getter_executor=ex, cache_failures_interval=FAIL if cache_failures else None,
                  time_getter=clock, default_value_factory=(lambda: 'dflt') if use_default else None)
    data, miss = {}, {}     # key -> (value, ts);   key -> ts
    pending = []            # keys of scheduled refreshes
    nt = False

    def forget(k):
        data.pop(k, None)
        miss.pop(k, None)

    def model_fetch(k):
        """What a refresh running right now does"""
        if k in src.values:
            forget(k)
            data[k] = (valued(k, src.values[k]), clock.now)
            return True
        forget(k)
        if cache_failures:
            miss[k] = clock.now
        return False

    def expect_failure(f):
        if use_default:
            eq(f(), 'dflt', 'default value')
        else:
            raises(KeyError, f)

    for o in program:
        kind = o[0]
        n_calls, n_sub = len(src.calls), ex.submitted
        if kind == 'get':
            k = o[1]
            now = clock.now
            if k in data and now - data[k][1] <= STALE:
                eq(d[k], data[k][0], 'fresh read')
                eq(ex.submitted, n_sub, 'a fresh read refreshes nothing')
            elif k in data and now - data[k][1] <= EXP:
                eq(d[k], data[k][0], 'a stale read is served from memory')
                eq(len(src.calls), n_calls, 'a stale read does not wait')
                eq(ex.submitted, n_sub + 1, 'a stale read schedules a refresh')
                pending.append(k)
                nt = True
            elif k in miss and now - miss[k] <= FAIL:
                expect_failure(lambda: d[k])
                eq(ex.submitted, n_sub, 'a cached failure asks nobody')
                nt = True
            else:
                nt = nt or k in data or k in miss
                if k in src.values:
                    eq(d[k], valued(k, src.values[k]), 'blocking read gives the current value')
                else:
                    expect_failure(lambda: d[k])
                eq(src.calls[n_calls:], [k], 'the source is asked exactly once')
                model_fetch(k)
        elif kind == 'tick':
            clock.advance(o[1])
        elif kind == 'bump':
            src.bump(o[1])
        elif kind == 'remove':
            src.values.pop(o[1], None)
        elif kind == 'run':
            ex.run()
            for k in pending:
                model_fetch(k)
            pending = []
        elif kind == 'invalidate':
            d.invalidate(o[1])
            forget(o[1])
        elif kind == 'feed':
            d.feed(o[1], o[2])
            forget(o[1])
            data[o[1]] = (o[2], clock.now)
        elif kind == 'feedts':
            t = clock.now - o[3]
            d.feed(o[1], o[2], t)
            forget(o[1])
            data[o[1]] = (o[2], t)
        elif kind == 'info':
            k = o[1]
            if k in data:
                eq(d.has_info_about(k), clock.now - data[k][1] <= EXP, 'has_info_about a value')
            elif k in miss:
                eq(d.has_info_about(k), clock.now - miss[k] <= FAIL, 'has_info_about a failure')
            else:
                eq(d.has_info_about(k), False, 'has_info_about nothing')
        elif kind == 'del':
            if o[1] in data:
                del d[o[1]]
                forget(o[1])
            elif o[1] not in miss:
                raises(KeyError, d.__delitem__, o[1])
        elif kind == 'set':
            d[o[1]] = o[2]
            forget(o[1])
            data[o[1]] = (o[2], clock.now)
        elif kind == 'len':
            eq(len(d), len(data), 'len')
            eq(sorted(d, key=repr), sorted(data, key=repr), 'iter')
    eq(sorted(d, key=repr), sorted(data, key=repr), 'keys at the end')
    return nt


LRU_KEYS = [0, 1, 2, 3, 4, 5, None, '']
lru_key = st.sampled_from(LRU_KEYS)


@prop.facet(st.tuples(st.integers(1, 4), ops(op('get', lru_key), op('get', lru_key),
                                              op('set', lru_key, val), op('feed', lru_key, val),
                                              op('del', lru_key), op('invalidate', lru_key),
                                              op('tick', st.sampled_from([1, 6, 21])), op('run'), max_size=50),
                      st.sets(lru_key, max_size=3)),
            'an eviction took place', quick=4000)
def lru_cache_dict(case):
    size, program, absent = case
    clock = FakeClock(1000)
    src = Source(set(LRU_KEYS) - absent)
    ex = OnDemandExecutor()
    d = LRUCacheDict(STALE, EXP, src, value_getter_executor=ex, time_getter=clock, max_size=size)
    data = {}       # key -> (value, ts)
    order = []      # LRU order, least recently used first
    pending = []
    evictions = 0

    def use(k):
        if k in order:
            order.remove(k)
        order.append(k)

    def drop(k):
        data.pop(k, None)
        if k in order:
            order.remove(k)

    def store(k, v, touch=True):
        nonlocal evictions
        if k not in data:
            while len(data) >= size:
                victim = [x for x in order if x in data and x != k][0]
                drop(victim)
                evictions += 1
        data[k] = (v, clock.now)
        use(k)

    for o in program:
        kind = o[0]
        if kind == 'get':
            k = o[1]
            if k in data and clock.now - data[k][1] <= EXP:
                stale = clock.now - data[k][1] > STALE
                eq(d[k], data[k][0], 'cached read')
                use(k)
                if stale:
                    pending.append(k)
            elif k in src.values:
                eq(d[k], valued(k, src.values[k]), 'read')
                store(k, valued(k, src.values[k]))
            else:
                raises(KeyError, lambda: d[k])
                drop(k)
        elif kind == 'set':
            d[o[1]] = o[2]
            store(o[1], o[2])
        elif kind == 'feed':
            if o[1] not in data:
                d.feed(o[1], o[2])
                store(o[1], o[2])
        elif kind == 'del':
            if o[1] in data:
                del d[o[1]]
                drop(o[1])
        elif kind == 'invalidate':
            d.invalidate(o[1])
            drop(o[1])
        elif kind == 'tick':
            clock.advance(o[1])
        elif kind == 'run':
            ex.run()
            for k in pending:
                if k in src.values:
                    store(k, valued(k, src.values[k]))
                else:
                    drop(k)
            pending = []
        check(len(d) <= size, 'holds %s elements, the maximum is %s', len(d), size)
        eq(sorted(d, key=repr), sorted(data, key=repr), 'contents after %s (least recently used are evicted)' % (o,))
    return evictions > 0


@prop.facet(ops(op('add', key), op('use', key), op('use', key), op('remove', key), op('evict')),
            'an eviction with >=2 tracked', quick=1000)
def lru(case):
    l = LRU()
    order = []
    nt = False
    for o in case:
        if o[0] == 'add':
            if o[1] not in order:
                l.add(o[1])
                order.append(o[1])
        elif o[0] == 'use':
            l.mark_as_used(o[1])
            if o[1] in order:
                order.remove(o[1])
            order.append(o[1])
        elif o[0] == 'remove':
            if o[1] in order:
                l.remove(o[1])
                order.remove(o[1])
            else:
                raises(KeyError, l.remove, o[1])
        elif o[0] == 'evict':
            if order:
                nt = nt or len(order) > 1
                eq(l.get_item_to_evict(), order.pop(0), 'evicted')
        eq(len(l), len(order), 'len')
        for k in KEYS:
            eq(k in l, k in order, 'in')
    return nt


two = st.integers(0, 1)
shared_ops = ops(op('get', two), op('get', two), op('get', two), op('feed', two), op('invalidate', two), op('set', two),
                 op('bump', two), op('remove', two), op('sleep', st.sampled_from([1, 4, 6, 9, 21])), op('evicting', st.integers(2, 4)),
                 min_size=1, max_size=6)


@prop.facet(st.tuples(st.sampled_from([None, 1, 2, 3]), st.booleans(), st.booleans(), st.integers(1, 2), st.integers(0, 1), st.sets(two),
                      st.lists(shared_ops, min_size=1, max_size=3), S.schedules(40), st.booleans()),
            'a key was read by one thread and altered by another, or refreshed in the background', quick=800, thorough=20000)
def threads(case):
    """Threads, and background refreshes, share a cache. What's served was true at some moment within the expiration interval"""
    size, cache_failures, use_default, workers, takes, present, programs, schedule, trace = case
    spans = {k: [] for k in range(5)}      # key -> list of [value, since, until]; value may be None for absence
    fed = {k: [] for k in range(5)}        # key -> list of (value, when)

    def now():
        return S.current.now

    def assign(k, v):
        if spans[k]:
            spans[k][-1][2] = now()
        spans[k].append([v, now(), float('inf')])

    def current(k):
        return spans[k][-1][0]

    def getter(k):
        if takes:
            time.sleep(takes)
        v = current(k)
        if v is None:
            raise KeyError(k)
        return v

    def main():
        for k in spans:
            assign(k, (k, 0) if k in present or k > 1 else None)
        ex = ThreadPoolExecutor(max_workers=workers)
        kwargs = {'value_getter_executor': ex, 'cache_failures_interval': FAIL if cache_failures else None,
                  'default_value_factory': (lambda: 'dflt') if use_default else None}
        d = CacheDict(STALE, EXP, getter, **kwargs) if size is None else LRUCacheDict(STALE, EXP, getter, max_size=size, **kwargs)
        count = [0]

        def get(k):
            began = now()
            try:
                v = d[k]
            except KeyError:
                check(not use_default, 'KeyError with a default value')
                v = None
            if v == 'dflt' and use_default:
                v = None
            ended = now()
            if v is None:
                when = began - 0.01 - (FAIL if cache_failures else 0)
                check(any(x is None and since <= ended and until >= when for x, since, until in spans[k]),
                      'key %s was declared missing, although it has never been, between %s and %s: %s', k, when, ended, spans[k])
            else:
                when = began - 0.01 - EXP
                check(any(x == v and since <= ended and until >= when for x, since, until in spans[k]) or
                      any(x == v and since >= when for x, since in fed[k]),
                      'key %s: got %r, which was not so between %s and %s: %s, fed %s', k, v, when, ended, spans[k], fed[k])
                d.has_info_about(k)

        def body(program):
            def go():
                for o in program:
                    count[0] += 1
                    if o[0] in ('get', 'evicting'):
                        get(o[1])
                    elif o[0] in ('feed', 'set'):
                        v = ('fed', count[0])
                        fed[o[1]].append([v, float('inf')])
                        entry = fed[o[1]][-1]
                        if o[0] == 'feed':
                            d.feed(o[1], v)
                        else:
                            d[o[1]] = v
                        entry[1] = now()
                    elif o[0] == 'invalidate':
                        d.invalidate(o[1])
                    elif o[0] == 'bump':
                        assign(o[1], (o[1], count[0]))
                    elif o[0] == 'remove':
                        assign(o[1], None)
                    else:
                        time.sleep(o[1])
            return go
        failures = []

        def guarded(program):
            def go():
                try:
                    body(program)()
                except Exception as e:
                    failures.append(e)
            return go
        ts = [Thread(target=guarded(p)) for p in programs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if failures:
            raise failures[0]
        if size is not None:
            check(len(d) <= size, 'holds %s elements, the maximum is %s', len(d), size)
        time.sleep(EXP + 1)     # all has expired
        for k in spans:
            if current(k) is None:
                eq(Outcome.of(lambda: d[k]), ('ok', 'dflt') if use_default else ('exc', KeyError), 'afterwards')
            else:
                eq(d[k], current(k), 'afterwards')
                eq(d[k], current(k), 'afterwards, again')
            if size is not None:
                check(len(d) <= size, 'holds %s elements, the maximum is %s', len(d), size)
        ex.shutdown(wait=True)

    S.Scheduler(schedule, trace, free_time=False, max_points=20000).run(main)
    touched = [{o[1] for o in p if o[0] == 'get'} for p in programs]
    altered = [{o[1] for o in p if o[0] in ('feed', 'invalidate', 'set')} for p in programs]
    return any(a & b for i, a in enumerate(touched) for j, b in enumerate(altered) if i != j)


# ---------------------------------------------------------------- two operations at once
pair_op = st.one_of(st.tuples(st.just('get'), two), st.tuples(st.just('set'), two), st.tuples(st.just('feed'), two),
                    st.tuples(st.just('del'), two), st.tuples(st.just('invalidate'), two), st.tuples(st.just('info'), two))


@prop.facet(st.tuples(st.sampled_from([None, 1, 2]), st.booleans(), st.sets(two),
                      st.lists(st.sampled_from(['absent', 'fresh', 'fresh', 'expired', 'missing']), min_size=2, max_size=2),
                      pair_op, pair_op, st.one_of(st.none(), st.integers(0, 20)), st.booleans(), st.integers(0, 9)),
            'both were about the same key', quick=150, thorough=4000)
def pairs(case):
    """Whenever one operation is interrupted by another, both come out as if done in turn (save for loading, which takes time)"""
    size, cache_failures, present, states, op_a, op_b, second, fine, phase = case

    def getter(k):
        if k not in present:
            raise KeyError(k)
        return 'loaded', k

    def make():
        ex = ThreadPoolExecutor(max_workers=2)
        kwargs = {'value_getter_executor': ex, 'cache_failures_interval': FAIL if cache_failures else None}
        d = CacheDict(STALE, EXP, getter, **kwargs) if size is None else LRUCacheDict(STALE, EXP, getter, max_size=size, **kwargs)
        for state in ('expired', 'missing', 'fresh'):
            for k, s in enumerate(states):
                if s == state == 'missing':
                    present_before = k in present
                    present.discard(k)
                    Outcome.of(lambda: d[k])
                    if present_before:
                        present.add(k)
                elif s == state != 'absent':
                    d.feed(k, (state, k))
            if state == 'expired':
                time.sleep(EXP + 1)
        return d, ex

    def perform(o, tag):
        kind, k = o
        return {'get': lambda x: x[0][k], 'set': lambda x: x[0].__setitem__(k, (tag, k)), 'feed': lambda x: x[0].feed(k, (tag, k)),
                'del': lambda x: x[0].__delitem__(k), 'invalidate': lambda x: x[0].invalidate(k),
                'info': lambda x: x[0].has_info_about(k)}[kind]

    def observe(x):
        d, ex = x
        out = len(d), sorted(d), [d.has_info_about(k) for k in (0, 1)], [Outcome.of(lambda: d[k]) for k in (0, 1)]
        if size is not None:
            check(len(d) <= size, 'holds %s elements, the maximum is %s', len(d), size)
        ex.shutdown(wait=True)
        return out

    def accept(got, allowed):
        for o in (op_a, op_b):
            if o[0] == 'info':
                # it is declared not to lock anything
                i = (op_a, op_b).index(o)
                if any(got[:i] + got[i + 1:] == x[:i] + x[i + 1:] for x in allowed):
                    return True
            if o[0] == 'get' and (states[o[1]] != 'fresh' or op_a[1] == op_b[1] or size == 1):
                break
        else:
            return False
        # loading isn't done in an instant, so whatever is there was there or has been loaded
        good = [{x[i] for x in allowed} | {('ok', ('loaded', o[1])) if o[0] == 'get' else ('exc', KeyError) if o[0] == 'del' else ('ok', True)} | {('ok', False)}
                for i, o in ((0, op_a), (1, op_b))]
        if got[0] not in good[0] or got[1] not in good[1]:
            return False
        values = [{x[2][3][k] for x in allowed} | ({('ok', ('loaded', k))} if k in present else {('exc', KeyError)}) for k in (0, 1)]
        return all(got[2][3][k] in values[k] for k in (0, 1))

    S.atomic_pair(make, perform(op_a, 'a'), perform(op_b, 'b'), observe, second, fine, phase, 20, accept)
    return op_a[1] == op_b[1]
