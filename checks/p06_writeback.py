import time
import sched as S
from concurrent.futures import ThreadPoolExecutor
from threading import Thread
from hypothesis import strategies as st
from harness import *
from gen import *
from execs import *
from satella.coding.structures import ExclusiveWritebackCache
from satella.instrumentation.metrics.structures import MetrifiedExclusiveWritebackCache

prop = Property('P06', ['only the cache modifies the storage, the executor starts jobs in submission order',
                        'a read overlapping a modification may return either value'])
KEYS = [0, 1, 2, None, '']
key = st.sampled_from(KEYS)
val = st.sampled_from([10, 11, 12, 13, 14, None, 0, ''])
mod = st.one_of(op('set', key, val), op('del', key))
wb_ops = ops(op('get', key), op('get', key), op('get', key), op('get', key), op('set', key, val), op('set', key, val),
             op('del', key), op('run', st.integers(1, 3)), op('raced', key, st.lists(mod, min_size=1, max_size=2)),
             op('repeat', key, st.integers(30, 120)), max_size=30)

MISSING = 'missing'


class Rig:
    def __init__(self, initial, executor, deletes, store, metrified=False):
        self.storage = dict(initial)
        self.inject = None
        self.reads = []
        cls = MetrifiedExclusiveWritebackCache if metrified else ExclusiveWritebackCache
        self.cache = cls(self.write, self.read, self.delete if deletes else None, executor=executor,
                         store_key_errors=store)

    def write(self, k, v):
        self.storage[k] = v

    def read(self, k):
        self.reads.append(k)
        v = self.storage.get(k, MISSING)
        if self.inject:
            self.inject()
        if v is MISSING:
            raise KeyError(k)
        return v

    def delete(self, k):
        self.storage.pop(k, None)


@prop.facet(st.tuples(st.dictionaries(key, val), st.booleans(), st.booleans(), wb_ops),
            'a key was read back while its modification was still waiting for write-back', quick=4000)
def writeback(case):
    initial, deletes, store, program = case
    ex = FIFOExecutor()
    rig = Rig(initial, ex, deletes, store)
    c = rig.cache
    model = dict(initial)
    nt = False
    cached = set()      # keys whose values are cached for sure

    def modify(o):
        if o[0] == 'set':
            c[o[1]] = o[2]
            model[o[1]] = o[2]
            cached.add(o[1])
        elif deletes:
            del c[o[1]]
            model.pop(o[1], None)
            cached.discard(o[1])
        else:
            def f():
                del c[o[1]]
            raises(TypeError, f)

    def get(k, allowed):
        before, was_cached, racing = len(rig.reads), k in cached, rig.inject is not None
        try:
            v = c[k]
        except KeyError:
            v = MISSING
        check(v in allowed, 'read of %s gave %r, expected one of %r', k, v, allowed)
        if was_cached:
            eq(len(rig.reads), before, 'reads of the storage for a cached key')
        elif v is not MISSING and not racing:
            cached.add(k)

    for o in program:
        if o[0] in ('set', 'del'):
            modify(o)
        elif o[0] == 'run':
            ex.run(o[1])
        elif o[0] == 'get':
            if ex.queue and model.get(o[1], MISSING) != rig.storage.get(o[1], MISSING):
                nt = True
            get(o[1], [model.get(o[1], MISSING)])
        elif o[0] == 'repeat':
            for _ in range(o[2]):
                get(o[1], [model.get(o[1], MISSING)])
        elif o[0] == 'raced':
            k, mods = o[1], o[2]
            allowed = [model.get(k, MISSING)]

            def inject():
                rig.inject = None
                for m in mods:
                    modify(m)
                    allowed.append(model.get(k, MISSING))
                    nonlocal nt
                    nt = True
            rig.inject = inject
            get(k, allowed)
            rig.inject = None
            get(k, [model.get(k, MISSING)])
    ex.run()
    eq(rig.storage, model, 'storage after everything was written back')
    for k in KEYS:
        get(k, [model.get(k, MISSING)])
    return nt


@prop.facet(st.tuples(st.dictionaries(key, val), st.booleans(),
                      ops(op('get', key), op('set', key, val), op('get', key), op('del', key), op('sync', st.sampled_from([None, 500])), max_size=25)),
            'sync() was called with modifications made before it', quick=150, thorough=3000)
def sync(case):
    initial, store, program = case
    ex = ThreadPoolExecutor(max_workers=1)
    nt = dirty = False
    real_sleep = time.sleep
    try:
      with patched(time, sleep=lambda dt: real_sleep(min(dt, 0.0005))):
        rig = Rig(initial, ex, True, store)
        c = rig.cache
        model = dict(initial)
        for o in program + [('sync', None)]:
            if o[0] == 'set':
                c[o[1]] = o[2]
                model[o[1]] = o[2]
                dirty = True
            elif o[0] == 'del':
                del c[o[1]]
                model.pop(o[1], None)
                dirty = True
            elif o[0] == 'get':
                got = Outcome.of(lambda: c[o[1]])
                eq(got, ('ok', model[o[1]]) if o[1] in model else ('exc', KeyError), 'read')
            else:
                c.sync(timeout=o[1]) if o[1] is not None else c.sync()
                nt = nt or dirty
                eq(rig.storage, model, 'storage after sync()')
    finally:
        ex.shutdown(wait=False)
    return nt


@prop.facet(st.tuples(st.booleans(), ops(op('get', key), op('get', key), op('set', key, val), op('del', key), max_size=30)),
            'a key was read more than once', quick=1000)
def reads_hit_cache(case):
    """What is known already is not read from the storage again (within 90 operations)"""
    store, program = case
    rig = Rig({0: 10, 1: 11}, FIFOExecutor(), True, store)
    c = rig.cache
    known, altered = set(), set()
    model = {0: 10, 1: 11}
    nt = False
    for o in program:
        k = o[1]
        n = len(rig.reads)
        if o[0] != 'get':
            altered.add(k)
        if o[0] == 'get':
            nt = nt or k in known
            eq(Outcome.of(lambda: c[k]), ('ok', model[k]) if k in model else ('exc', KeyError), 'read')
            if k in known:
                eq(len(rig.reads), n, 'reads of the storage')
            elif k not in altered:
                eq(len(rig.reads), n + 1, 'reads of the storage for something that is not remembered')
            if k in model or store:
                known.add(k)
        elif o[0] == 'set':
            c[k] = o[2]
            model[k] = o[2]
            known.add(k)
            eq(len(rig.reads), n, 'reads of the storage')
        else:
            del c[k]
            model.pop(k, None)
            known.discard(k)
            if store:
                known.add(k)
    return nt


one = ops(op('get', st.integers(0, 1)), op('set', st.integers(0, 1), val), op('del', st.integers(0, 1)), min_size=1, max_size=4)


def step(state, operation, result):
    """A dictionary"""
    d = dict(state)
    kind, k = operation[:2]
    if kind == 'get':
        return (state,) if result == (('ok', d[k]) if k in d else ('exc', 'KeyError')) else None
    if result[0] != 'ok':
        return None
    if kind == 'set':
        d[k] = operation[2]
    else:
        d.pop(k, None)
    return (tuple(sorted(d.items())),)


@prop.facet(st.tuples(st.dictionaries(st.integers(0, 1), val), st.booleans(), st.lists(one, min_size=2, max_size=3), S.schedules(40),
                      st.booleans()), 'a key was modified by two threads', quick=600, thorough=12000)
def threads(case):
    """Threads share the cache"""
    initial, store, programs, schedule, trace = case
    rec = S.Recorder()
    rigs = []

    def main():
        ex = ThreadPoolExecutor(max_workers=1)
        rig = Rig(initial, ex, True, store)
        rigs.append(rig)
        left = [len(programs)]

        def body(n, program):
            def go():
                for o in program:
                    if o[0] == 'get':
                        rec.do(o, lambda: rig.cache[o[1]])
                    elif o[0] == 'set':
                        rec.do(('set', o[1], (o[2], n) if o[2] else o[2]), lambda: rig.cache.__setitem__(o[1], (o[2], n) if o[2] else o[2]))
                    else:
                        rec.do(o, lambda: rig.cache.__delitem__(o[1]))
            return go
        ts = [Thread(target=body(n, p)) for n, p in enumerate(programs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for k in (0, 1):
            rec.do(('get', k), lambda: rig.cache[k])
        ex.shutdown(wait=True)

    S.Scheduler(schedule, trace, free_time=False).run(main)
    check(S.linearizable(rec.history, tuple(sorted(initial.items())), step), 'no order of operations explains %r', rec.history)
    rig = rigs[0]
    for (_, _, (_, k), res) in rec.history[-2:]:
        eq(('ok', rig.storage[k]) if k in rig.storage else ('exc', 'KeyError'), res, 'the storage once all is written, vs what the cache has told')
    return any(sum(any(o[0] != 'get' and o[1] == k for o in p) for p in programs) > 1 for k in (0, 1))


two = st.sampled_from([0, 0, 0, 1])
one_op = st.one_of(st.tuples(st.just('get'), two), st.tuples(st.just('get'), two), st.tuples(st.just('set'), two), st.tuples(st.just('del'), two))


@prop.facet(st.tuples(st.sampled_from([{0}, {0}, {0, 1}, set()]), st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(['get', 'set', 'del']), two), max_size=2)), st.booleans(), st.sampled_from([False, False, True]), one_op, one_op,
                      st.one_of(st.none(), st.integers(0, 20)), st.booleans(), st.integers(0, 9)), 'both were about the same key', quick=150, thorough=4000)
def pairs(case):
    """At whatever moment of one operation another one comes, they come out as if they were done one after another"""
    initial, before, store, aged, op_a, op_b, second, fine, phase = case

    def perform(o, tag):
        if o[0] == 'get':
            return lambda x: x[0].cache[o[1]]
        if o[0] == 'set':
            return lambda x: x[0].cache.__setitem__(o[1], tag)
        return lambda x: x[0].cache.__delitem__(o[1])

    def make():
        ex = ThreadPoolExecutor(max_workers=1)
        rig = Rig({k: 'initial' for k in initial}, ex, True, store)
        rig.cache['other'] = 0
        for o in before:
            Outcome.of(perform(o, 'before'), (rig, ex))
        if aged:        # what it has learnt is about to be forgotten
            for _ in range(99 - len(before)):
                rig.cache['other']
        return rig, ex

    def see(x):
        rig, ex = x
        told = [Outcome.of(lambda: rig.cache[k]) for k in (0, 1)]
        rig.cache.sync()
        for k in (0, 1):
            eq(('ok', rig.storage[k]) if k in rig.storage else ('exc', KeyError), told[k], 'the storage once all is written, vs what the cache has told')
        ex.shutdown(wait=True)
        return told

    S.atomic_pair(make, perform(op_a, 'a'), perform(op_b, 'b'), see, second, fine, phase, 20)
    return op_a[1] == op_b[1]
