import sched as S
import gc
import time
import weakref
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.concurrent import Monitor
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict

prop = Property('P04', ['the injected clock is monotonic', 'a mutation of a stored value keeps it comparable'])
KEYS = [0, 1, 2, 3, None, '']
key = st.sampled_from(KEYS)
val = st.sampled_from([10, 11, 12, None, 0, ''])
dct = st.dictionaries(key, val, max_size=4)


@prop.facet(st.tuples(st.sampled_from([2, 5, 3.5]), dct,
                      ops(op('set', key, val), op('set', key, val), op('tick', st.sampled_from([0, 0.5, 1, 1.5, 2, 4])),
                          op('tick', st.sampled_from([0, 0.5, 1, 1.5, 2, 4])), op('get', key), op('in', key),
                          op('del', key), op('len'), op('iter'), op('items'), op('cleanup'), op('getd', key),
                          op('pop', key), op('update', dct))),
            'an entry expired and another one was still alive', quick=3000)
def expiring(case):
    timeout, init, program = case
    clock = FakeClock(100)
    d = ExpiringEntryDict(timeout, init, time_getter=clock)
    m = {k: (v, 100 + timeout) for k, v in init.items()}
    nt = False

    def alive():
        return {k: v for k, (v, e) in m.items() if not e < clock.now}

    for o in program:
        k = o[0]
        a = alive()
        if m and a and len(a) < len(m):
            nt = True
        if k == 'set':
            d[o[1]] = o[2]
            m[o[1]] = (o[2], clock.now + timeout)
        elif k == 'update':
            d.update(o[1])
            for kk, v in o[1].items():
                m[kk] = (v, clock.now + timeout)
        elif k == 'tick':
            clock.advance(o[1])
        elif k == 'get':
            if o[1] in a:
                eq(d[o[1]], a[o[1]], 'get')
            else:
                raises(KeyError, lambda: d[o[1]])
        elif k == 'getd':
            eq(d.get(o[1], 'no'), a.get(o[1], 'no'), 'get with default')
        elif k == 'in':
            eq(o[1] in d, o[1] in a, 'in')
        elif k == 'del':
            if o[1] in a:
                del d[o[1]]
                del m[o[1]]
            elif o[1] not in m:
                raises(KeyError, d.__delitem__, o[1])
        elif k == 'pop':
            if o[1] in a:
                eq(d.pop(o[1]), a[o[1]], 'pop')
                del m[o[1]]
            else:
                eq(d.pop(o[1], 'no'), 'no', 'pop with default')
        elif k == 'len':
            eq(len(d), len(a), 'len')
        elif k == 'iter':
            eq(sorted(d, key=repr), sorted(a, key=repr), 'iter')
        elif k == 'items':
            eq(dict(d.items()), a, 'items')
            eq(sorted(d.values(), key=repr), sorted(a.values(), key=repr), 'values')
        elif k == 'cleanup':
            d.cleanup()
    a = alive()
    for k in KEYS:
        eq(k in d, k in a, 'final in')
    eq(dict(d.items()), a, 'final items')
    eq(len(d), len(a), 'final len')
    eq(bool(d), bool(a), 'final bool')
    return nt


@prop.facet(st.tuples(st.booleans(), st.dictionaries(key, st.lists(val, min_size=1, max_size=2), max_size=4),
                      ops(op('set', key, st.lists(val, max_size=2)), op('get', key), op('append', key, val),
                          op('drain', key), op('scribble', key), op('del', key), op('len'), op('iter'), op('cleanup'), op('items'))),
            'a stored value turned into the default and vanished', quick=2000)
def self_cleaning(case):
    background, init, program = case
    init = {k: list(v) for k, v in init.items()}
    d = SelfCleaningDefaultDict(list, background, init)
    m = {k: list(v) for k, v in init.items()}
    nt = False
    for o in program:
        k = o[0]
        live = {kk: v for kk, v in m.items() if v}
        if k == 'set':
            v = list(o[2])
            d[o[1]] = v
            m[o[1]] = list(o[2])
        elif k == 'get':
            eq(d[o[1]], m.get(o[1], []), 'get')
        elif k == 'append':
            if m.get(o[1]):
                d[o[1]].append(o[2])
                m[o[1]].append(o[2])
            elif not background and o[1] not in m:
                d.cleanup()     # so that the default inserted now is a fresh one
                d[o[1]].append(o[2])
                m[o[1]] = [o[2]]
        elif k == 'drain':
            if m.get(o[1]):
                d[o[1]].clear()
                m[o[1]] = []
                nt = True
                # it may be read back before or after being cleaned up, but is not there any more
                eq(len(d), len([1 for v in m.values() if v]), 'len after a value became default')
                m.pop(o[1])
        elif k == 'scribble':
            # what was given in place of a missing value, or one that has gone, concerns the dictionary no more
            if m.get(o[1]):
                d[o[1]].clear()
                d[o[1]].append(99)
                m.pop(o[1])
            elif background:
                d[o[1]].append(99)
        elif k == 'del':
            d.__delitem__(o[1])
            m.pop(o[1], None)
        elif k == 'len':
            eq(len(d), len(live), 'len')
        elif k == 'iter':
            eq(sorted(d, key=repr), sorted(live, key=repr), 'iteration')
        elif k == 'items':
            eq({kk: list(v) for kk, v in d.items()}, live, 'items')
        elif k == 'cleanup':
            d.cleanup()
        for kk in [kk for kk, v in m.items() if not v]:
            m.pop(kk)
    eq(len(d), len(m), 'final len')
    eq({kk: list(v) for kk, v in d.items()}, m, 'final items')
    for kk in KEYS:
        eq(d[kk], m.get(kk, []), 'final get')
    return nt


DEFAULTS = [0, 5, None, '', 'x', (), False]


@prop.facet(st.tuples(st.sampled_from(DEFAULTS), st.booleans(), st.dictionaries(key, st.sampled_from(DEFAULTS)),
                      ops(op('set', key, st.sampled_from(DEFAULTS)), op('set', key, st.sampled_from(DEFAULTS)), op('get', key),
                          op('del', key), op('in', key), op('items'), op('cleanup'), op('pop', key))),
            'a default that is not false, or false values which are not the default', quick=800)
def self_cleaning_defaults(case):
    """Only what is equal to the default goes away, be the values false or not"""
    default, background, init, program = case
    d = SelfCleaningDefaultDict(lambda: default, background, init)
    m = {k: v for k, v in init.items() if v != default}
    nt = bool(default) or any(not v for v in m.values())
    for o in program:
        kind = o[0]
        if kind == 'set':
            d[o[1]] = o[2]
            m.pop(o[1], None)
            if o[2] != default:
                m[o[1]] = o[2]
                nt = nt or not o[2]
        elif kind == 'get':
            eq(d[o[1]], m.get(o[1], default), 'get')
        elif kind == 'del':
            del d[o[1]]
            m.pop(o[1], None)
        elif kind == 'pop':
            eq(d.pop(o[1], default), m.pop(o[1], default), 'pop')
        elif kind == 'cleanup':
            d.cleanup()
        elif kind == 'items':
            eq(dict(d.items()), m, 'items')
        eq(len(d), len(m), 'len')
        eq(sorted(d, key=repr), sorted(m, key=repr), 'keys')
    return nt


few = st.integers(0, 2)
timed = st.lists(st.one_of(op('set', few, val), op('set', few, val), op('get', few), op('get', few), op('in', few), op('in', few), op('del', few),
                           op('cleanup'), op('tick', st.sampled_from([1, 2, 3])), op('snapshot'), op('when', few)), min_size=1, max_size=4)


def expiring_step(state, o, result):
    now, entries = state
    d = dict(entries)
    kind = o[0]
    alive = len(o) > 1 and o[1] in d and not d[o[1]][1] < now
    if kind == 'tick':
        return ((now + o[1], entries),)
    if kind == 'set':
        d[o[1]] = o[2], now + TIMEOUT
        return ((now, tuple(sorted(d.items()))),) if result[0] == 'ok' else None
    if kind == 'cleanup':
        return (state,) if result[0] == 'ok' else None
    if kind == 'snapshot':
        return (state,) if result == ('ok', sorted((k, v) for k, (v, e) in d.items() if not e < now)) else None
    if kind == 'in':
        return (state,) if result == ('ok', alive) else None
    if kind == 'get':
        return (state,) if result == (('ok', d[o[1]][0]) if alive else ('exc', 'KeyError')) else None
    if kind == 'when':
        # an expired one may still be there
        return (state,) if o[1] in d and result == ('ok', d[o[1]][1]) or not alive and result == ('exc', 'KeyError') else None
    if kind == 'del':
        # an expired one might have been removed already, or not
        if alive and result[0] != 'ok' or o[1] not in d and result[0] == 'ok' or result[0] == 'exc' and result[1] != 'KeyError':
            return None
        if result[0] == 'ok':
            d.pop(o[1])
        return ((now, tuple(sorted(d.items()))),)


TIMEOUT = 2


@prop.facet(st.tuples(st.dictionaries(few, val), st.lists(timed, min_size=2, max_size=3), S.schedules(40)),
            'one thread looked at a key that another thread was altering or cleaning up', quick=800, thorough=20000)
def expiring_threads(case):
    """Threads share a dictionary, and somebody keeps on cleaning it up"""
    init, programs, schedule = case
    clock = FakeClock(100)
    d = ExpiringEntryDict(TIMEOUT, init, time_getter=clock)
    rec = S.Recorder()

    def snapshot():
        with Monitor.acquire(d):        # this is how the documentation tells to iterate
            return sorted(d.items())

    def do(o):
        kind = o[0]
        if kind == 'tick':
            clock.advance(o[1])
        elif kind == 'set':
            d[o[1]] = o[2]
        elif kind == 'cleanup':
            d.cleanup()
        elif kind == 'snapshot':
            return snapshot()
        elif kind == 'in':
            return o[1] in d
        elif kind == 'get':
            return d[o[1]]
        elif kind == 'when':
            return d.get_timestamp(o[1])
        else:
            del d[o[1]]

    def body(program):
        def go():
            for o in program:
                rec.do(o, lambda: do(o))
        return go

    S.Scheduler(schedule, True).run(*map(body, programs))
    S.Scheduler().run(body([('snapshot',)]))
    # entries expiring in the middle of an iteration are a matter left open
    history = [x for x in rec.history if not (x[2][0] == 'snapshot' and x[3][0] == 'exc' and any(
        y[2][0] == 'tick' and y[0] < x[1] and x[0] < y[1] for y in rec.history))]
    check(S.linearizable(history, (100, tuple(sorted((k, (v, 100 + TIMEOUT)) for k, v in init.items()))), expiring_step),
          'no order of operations explains %r', rec.history)
    return any(o[0] in ('get', 'in', 'snapshot', 'when') for p in programs[1:] for o in p) and \
        any(o[0] in ('set', 'del', 'cleanup') for o in programs[0])


plain = st.lists(st.one_of(op('set', few, st.integers(0, 2)), op('set', few, st.integers(0, 2)), op('get', few), op('del', few), op('del', few),
                           op('cleanup'), op('snapshot')), min_size=1, max_size=4)


def cleaning_step(state, o, result):
    d = dict(state)
    kind = o[0]
    if result[0] != 'ok':
        return None
    if kind == 'set':
        d.pop(o[1], None)
        if o[2]:
            d[o[1]] = o[2]
        return (tuple(sorted(d.items())),)
    if kind == 'get':
        return (state,) if result[1] == d.get(o[1], 0) else None
    if kind == 'del':
        d.pop(o[1], None)
        return (tuple(sorted(d.items())),)
    if kind == 'snapshot':
        return (state,) if result[1] == sorted(d.items()) else None
    return (state,)


@prop.facet(st.tuples(st.dictionaries(few, st.integers(0, 2)), st.lists(plain, min_size=2, max_size=3), S.schedules(40)),
            'one thread looked at a key that another thread was altering', quick=500, thorough=12000)
def self_cleaning_threads(case):
    init, programs, schedule = case
    d = SelfCleaningDefaultDict(int, False, init)
    rec = S.Recorder()

    def do(o):
        kind = o[0]
        if kind == 'set':
            d[o[1]] = o[2]
        elif kind == 'cleanup':
            d.cleanup()
        elif kind == 'snapshot':
            with Monitor.acquire(d):
                return sorted(d.items())
        elif kind == 'get':
            return d[o[1]]
        else:
            del d[o[1]]

    def body(program):
        def go():
            for o in program:
                rec.do(o, lambda: do(o))
        return go

    S.Scheduler(schedule, True).run(*map(body, programs))
    S.Scheduler().run(body([('snapshot',)]))
    check(S.linearizable(rec.history, tuple(sorted((k, v) for k, v in init.items() if v)), cleaning_step),
          'no order of operations explains %r', rec.history)
    return any(o[0] in ('get', 'snapshot') for p in programs[1:] for o in p) and any(o[0] in ('set', 'del') for o in programs[0])


class Value:
    pass


class Zero:
    """Something that becomes equal to the default value on it's own"""

    def __init__(self, on=False):
        self.on = on

    def __eq__(self, other):
        return isinstance(other, Zero) and self.on == other.on


@prop.facet(st.tuples(st.lists(st.tuples(st.booleans(), st.integers(1, 4), st.integers(0, 3), st.booleans(), st.booleans(), st.booleans()),
                               min_size=1, max_size=4), S.schedules(15)),
            'an object was released without anybody looking into the dictionary', quick=200, thorough=2500)
def background(case):
    """The background thread removes what has expired, from each of dictionaries that are still there; and keeps none of them alive"""
    dictionaries, schedule = case

    def child():
        released = []

        def main():
            dicts = []
            for expiring, entries, timeout, forgotten, held, slow in dictionaries:
                if expiring:
                    d = ExpiringEntryDict(timeout, external_cleanup=True)
                    values = [Value() for _ in range(entries)]
                else:
                    d = SelfCleaningDefaultDict(Zero)
                    values = [Zero(True) for _ in range(entries)]
                if slow:
                    time.sleep(6)           # the thread finds it empty first
                for i, v in enumerate(values):
                    d[i] = v
                if not expiring:
                    for v in values[::2]:
                        v.on = False
                kept = values[1::2] if not expiring else []
                refs = [weakref.ref(v) for v in (values if expiring else values[::2])]
                wd = weakref.ref(d)
                stays = [weakref.ref(v) for v in kept]
                del values, kept, v
                if held:
                    with Monitor.acquire(d):
                        other = ExpiringEntryDict(1, external_cleanup=True)
                        other['x'] = 1
                        time.sleep(7)       # the thread has to wait
                    del other
                dicts.append((None if forgotten else d, wd, refs, stays, timeout))
                del d
            time.sleep(5 + 5 + max(x[2] for x in dictionaries))
            gc.collect()
            for d, wd, refs, stays, timeout in dicts:
                if d is None:
                    check(wd() is None, 'the thread keeps a dictionary alive')
                check(all(x() is None for x in refs), 'what has expired is kept')
                released.append(len(refs))
                if d is not None:
                    check(all(x() is not None for x in stays), 'what was to stay has gone')
                    eq(sorted(d), [1 + 2 * i for i in range(len(stays))], 'contents')

        S.Scheduler(schedule, True, free_time=False).run(main)
        return sum(released)
    return in_child(child) > 0
