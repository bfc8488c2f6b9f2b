"""P32: stopwatches, time strings, sleeping and backoffs keep time as documented"""
import sched as S       # before satella

import math
import time
import warnings
from concurrent.futures import Future

from hypothesis import strategies as st

from harness import Property, check, eq, raises, patched, FakeClock, Violation
from gen import op

from satella.exceptions import WouldWaitMore
from satella.time import measure, ExponentialBackoff, parse_time_string, sleep, time_as_int, time_ms, time_us

prop = Property('P32', ['time is virtual; threads are switched by the harness'])
warnings.simplefilter('ignore')

quarter = st.integers(0, 40).map(lambda x: x / 4)
Q = [0.0, 0.25, 1.0, 2.5, 10.0]


# ---------------------------------------------------------------- measure
class Watch:
    """What a stopwatch is"""

    def __init__(self, clock, adjust, stopped, timeout, stoppable):
        self.clock, self.timeout, self.stoppable = clock, timeout, stoppable
        self.base = 0.0
        self.since = None if stopped and stoppable else clock.now + adjust
        self.frozen = stopped       # what does it say of itself

    def elapsed(self):
        return self.base + (0.0 if self.since is None else self.clock.now - self.since)

    def start(self):
        if not self.stoppable or self.since is not None:
            return False
        self.since = self.clock.now
        return True

    def stop(self):
        if not self.stoppable or self.since is None:
            return False
        self.base = self.elapsed()
        self.since = None
        return True

    def reset(self):
        self.base, self.since = 0.0, None


class Planned(Exception):
    pass


step = st.one_of(st.tuples(st.just('advance'), quarter), st.tuples(st.just('advance'), quarter), st.tuples(st.sampled_from(['start', 'stop', 'reset', 'reset_and_start', 'reset_and_stop', 'update', 'start', 'stop'])),
                 st.tuples(st.just('adjust'), st.sampled_from(Q)), st.tuples(st.just('with'), st.lists(st.one_of(st.sampled_from(['stop', 'start', 'reset']), quarter), max_size=3), st.booleans()))


@prop.facet(st.tuples(st.booleans(), st.sampled_from([True, True, True, False]), st.sampled_from([0.0, 0.0, -2.5, 1.0]), st.one_of(st.none(), quarter), st.lists(step, min_size=2, max_size=12)), 'it was stopped and resumed, or has timed out', quick=1500)
def stopwatch(case):
    """Histories of a measure()"""
    stopped, stoppable, adjust, timeout, steps = case
    clock = FakeClock()
    if stopped:
        adjust = 0.0
    if not stoppable:
        stopped = False
    m = measure(stop_on_stop=stoppable, adjust=adjust, time_getter_callable=clock, create_stopped=stopped, timeout=timeout)
    w = Watch(clock, adjust, stopped, timeout, stoppable)
    resumed, timed, was_stopped = False, False, False

    def audit(what):
        nonlocal timed
        e = w.elapsed()
        eq(m(), e, 'elapsed after %r' % (what,))
        eq(m.get_time_elapsed(), e, 'get_time_elapsed()')
        eq(m.has_exceeded(1.0), e > 1.0, 'has_exceeded()')
        if e > 2.5:
            raises(WouldWaitMore, m.raise_if_exceeded, 2.5)
            raises(Planned, m.raise_if_exceeded, 2.5, Planned)
        else:
            m.raise_if_exceeded(2.5)
        if timeout is None:
            eq(m.time_remaining, None, 'time_remaining')
            eq(m.timeouted, False, 'timeouted')
            m.assert_not_timeouted()
        else:
            eq(m.time_remaining, max(0, timeout - e), 'time_remaining')
            if e != timeout:
                eq(m.timeouted, e > timeout, 'timeouted')
            if m.timeouted:
                timed = True
                raises(WouldWaitMore, m.assert_not_timeouted)
            else:
                m.assert_not_timeouted()
        if stoppable:
            eq(m.stopped, w.since is None, 'stopped')

    def act(name):
        nonlocal resumed, was_stopped
        if name == 'reset' and not stoppable:
            return      # it can't be put in a stopped mode
        if name == 'reset':
            m.reset()
            w.reset()
            return
        ok = w.start() if name in ('start', 'update') else w.stop()
        if ok:
            eq(getattr(m, name)(), None, name)
            resumed |= name == 'start' and was_stopped and w.base > 0
            was_stopped |= name == 'stop'
        else:
            raises(TypeError, getattr(m, name))

    audit('making')
    for s in steps:
        if s[0] == 'advance':
            clock.advance(s[1])
        elif s[0] == 'adjust':
            if w.since is None:
                continue    # what does it do to a stopped one is left open
            m.adjust(s[1])
            w.since += s[1]
        elif s[0] == 'with':
            if stoppable and w.since is None:
                w.start()
            try:
                with m as n:
                    check(m is n, '__enter__ returned another object')
                    audit('entering')
                    for x in s[1]:
                        if isinstance(x, float):
                            clock.advance(x)
                        else:
                            act(x)
                        audit(x)
                    if s[2]:
                        raise Planned()
            except Planned:
                check(s[2], 'Planned raised')
            else:
                check(not s[2], 'the exception was swallowed')
            w.stop()
        elif s[0] in ('reset_and_start', 'reset_and_stop'):
            if not stoppable:
                raises(TypeError, getattr(m, s[0]))
                break       # in what state it is now is left open
            if s[0] == 'reset_and_stop':
                if w.since is None:
                    raises(TypeError, m.reset_and_stop)
                    continue
                m.reset_and_stop()
                w.reset()
            else:
                m.reset_and_start()
                w.reset()
                w.start()
        else:
            act(s[0])
        audit(s)
    return resumed or timed


@prop.facet(st.tuples(st.booleans(), st.sampled_from(['function', 'method', 'generator', 'recursion']), st.lists(st.tuples(quarter, quarter, st.booleans()), min_size=1, max_size=4), quarter, st.booleans()), 'called more than once', quick=500)
def decorated(case):
    """measure() as a decorator: each call has a measurement of its own"""
    stopped, kind, calls, before, stoppable = case
    stopped &= stoppable        # one that can be neither started nor stopped is just running
    clock = FakeClock()
    seen = []

    def body(m, a, b):
        check(isinstance(m, measure), 'not a measure but %r', m)
        check(all(m is not x for x in seen), 'a measurement is shared')
        seen.append(m)
        eq(m(), 0.0, 'time elapsed at start')
        clock.advance(a)
        eq(m(), 0.0 if stopped else a, 'time elapsed')
        if stopped:
            m.start()
        clock.advance(b)
        eq(m(), b if stopped else a + b, 'time elapsed')

    kw = {} if stoppable else {'stop_on_stop': False}
    if stopped:
        kw['create_stopped'] = True
    deco = measure(time_getter_callable=clock, **kw)
    clock.advance(before)

    def finish(m, a, b, fail):
        check(m is seen[-1], 'harness')
        clock.advance(5.0)
        if not stopped:
            eq(m(), a + b + (0.0 if stoppable else 5.0), 'time elapsed, after the function has finished')

    if kind == 'generator':
        @deco
        def fun(m, a, b, fail=False):
            eq(m(), 0.0, 'time elapsed at start')
            seen.append(m)
            got = yield 1
            clock.advance(a)
            yield got
            if stopped:
                m.start()
            clock.advance(b)
            if fail:
                raise Planned()
            return m
        runs = []
        for a, b, fail in calls:
            g = fun(a, b, fail=fail)
            eq(next(g), 1, 'value')
            runs.append((g, clock.now, a, b, fail))
        for g, t0, a, b, fail in runs:
            eq(g.send('x'), 'x', 'value sent')
        for i, (g, t0, a, b, fail) in enumerate(runs):
            t1 = clock.now
            try:
                v = next(g)
                raise Violation('yielded %r' % (v,))
            except StopIteration as e:
                check(not fail, 'finished')
                check(e.value is seen[i], 'value returned')
            except Planned:
                check(fail, 'Planned')
            t2 = clock.now
            clock.advance(3.0)
            if not stopped:
                eq(seen[i](), (t2 if stoppable else clock.now) - t0, 'time elapsed in a generator')
            else:
                eq(seen[i](), clock.now - t1, 'time elapsed in a generator')
        check(len({id(m) for m in seen}) == len(seen), 'measurements are shared')
        return len(calls) > 1
    if kind == 'recursion':
        @deco
        def rec(m, n):
            check(all(m is not x for x in seen), 'a measurement is shared')
            seen.append(m)
            t0 = clock.now
            if stopped:
                m.start()
            a, b, fail = calls[n]
            clock.advance(a)
            if n + 1 < len(calls):
                eq(rec(n + 1), n + 1, 'value')
            clock.advance(b)
            eq(m(), clock.now - t0, 'time elapsed')
            return n
        eq(rec(0), 0, 'value')
        return len(calls) > 1
    if kind == 'method':
        class Cls:
            @deco
            def fun(self, m, a, b, fail=False):
                eq(self.tag, 'tag', 'self')
                body(m, a, b)
                if fail:
                    raise Planned()
                return 'value', a
            tag = 'tag'
        fun = Cls().fun
    else:
        @deco
        def fun(m, a, b, fail=False):
            body(m, a, b)
            if fail:
                raise Planned()
            return 'value', a
    for a, b, fail in calls:
        if fail:
            raises(Planned, fun, a, b, fail=True)
        else:
            eq(fun(a, b), ('value', a), 'value returned')
        finish(seen[-1], a, b, fail)
        clock.advance(1.5)
    return len(calls) > 1


@prop.facet(st.tuples(st.sampled_from(['result', 'exception', 'cancel', 'done']), quarter, quarter), 'always', quick=60)
def futures(case):
    """measure(future)"""
    kind, a, b = case
    clock = FakeClock()
    f = Future()
    if kind == 'done':
        f.set_result(1)
    m = measure(f, time_getter_callable=clock)
    clock.advance(a)
    if kind != 'done':
        eq(m(), a, 'time elapsed')
    if kind == 'result':
        f.set_result(3)
    elif kind == 'exception':
        f.set_exception(Planned())
    elif kind == 'cancel':
        f.cancel()
    clock.advance(b)
    eq(m(), 0.0 if kind == 'done' else a, 'time elapsed since')
    check(m.stopped, 'not stopped')
    return True


# ---------------------------------------------------------------- strings
UNITS = {'s': 1, 'sec': 1, 'second': 1, 'seconds': 1, 'm': 60, 'min': 60, 'mins': 60, 'minute': 60, 'minutes': 60, 'h': 3600, 'hour': 3600, 'hours': 3600, 'd': 86400, 'day': 86400, 'days': 86400,
         'w': 604800, 'week': 604800, 'weeks': 604800}


@prop.facet(st.tuples(st.one_of(st.integers(-3, 10 ** 6).map(str), st.sampled_from(['1.5', '0', '0.25', '-2.5', '007'])), st.sampled_from(sorted(UNITS) + ['', 'number']), st.sampled_from(['', ' ', '  ']), st.sampled_from(['', ' '])), 'with a unit', quick=300)
def strings(case):
    """parse_time_string"""
    number, unit, gap, end = case
    if unit == 'number':
        v = float(number)
        for x in (v, int(v)):
            got = parse_time_string(x)
            check(got == x and type(got) is type(x), 'parse_time_string(%r) is %r', x, got)
        return False
    s = number + gap + unit + end
    try:
        got = parse_time_string(s)
    except Exception as e:
        raise Violation('parse_time_string(%r) raised %r' % (s, e))
    check(math.isclose(got, float(number) * UNITS.get(unit, 1)), 'parse_time_string(%r) is %r', s, got)
    return unit != ''


@prop.facet(st.tuples(st.sampled_from(['', ' ', '-', 'x', '1x', 'a', '1 2', '--1', '1,5']), st.sampled_from(sorted(UNITS) + [''])), 'with a unit', quick=100)
def malformed(case):
    """A string without a proper number is refused"""
    number, unit = case
    try:
        got = parse_time_string(number + unit)
    except ValueError:
        return unit != ''
    raise Violation('parse_time_string(%r) is %r' % (number + unit, got))


@prop.facet(st.floats(0, 4e9), 'always', quick=100)
def clocks(now):
    """time_as_int, time_ms, time_us"""
    ns = int(now * 1e9)
    with patched(time, time=lambda: ns / 1e9, time_ns=lambda: ns):
        eq(time_as_int(), int(ns / 1e9), 'time_as_int')
        eq(time_ms(), ns // 10 ** 6, 'time_ms')
        eq(time_us(), ns // 10 ** 3, 'time_us')
    return True


@prop.facet(st.tuples(st.one_of(quarter, st.sampled_from([-1.0, -0.5, '-2', 0, 3, '5', '2s', '1 min', 1e-6, 3e-6])), st.lists(st.one_of(st.sampled_from([0.0, 0.5, 0.999, 1.0, 1.0, 1.5, 'near', 'near', 'near']), st.sampled_from([0.3, 0.9]).map(lambda x: (x,))), max_size=4),
                      st.booleans(), st.booleans()), 'interrupted, or woken up early', quick=500)
def sleeping(case):
    """sleep(): slept portions of what was asked for, possibly interrupted (a tuple)"""
    y, portions, abort, kw = case
    want = parse_time_string(y)
    sch = S.Scheduler([], False, free_time=False)
    portions = list(portions)
    left = len(portions)
    state = {'interrupted': False, 'early': False}

    def fake(dt):
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        p = portions.pop(0) if portions else 1.0
        if isinstance(p, tuple):
            sch.now += dt * p[0]
            state['interrupted'] = True
            raise KeyboardInterrupt()
        if p == 'near':     # all of it but less than it takes to look at the clock twice
            sch.now += max(0.0, dt - 1.5e-6)
            state['early'] = True
        else:
            sch.now += dt * p
            state['early'] |= p < 1

    def main():
        t0 = sch.now
        with patched(time, sleep=fake):
            got = sleep(*((y, abort) if abort or kw else (y,)))
        return got, sch.now - t0
    got, took = sch.run(main)[0]
    if want < 0:
        eq(got, False, 'sleep(%r)' % (y,))
        check(took < 0.01, 'slept for %s', took)
        return False
    if state['interrupted'] and abort:
        eq(got, False, 'sleep() interrupted')
        check(took <= want + 0.01, 'slept for %s', took)
        eq(len([p for p in portions if isinstance(p, tuple)]) <= left, True, 'harness')
        return True
    eq(got, True, 'sleep(%r)' % (y,))
    check(took >= want - 1e-9, 'slept for %s instead of %s', took, want)
    return state['interrupted'] or state['early']


# ---------------------------------------------------------------- backoff
@prop.facet(st.tuples(st.sampled_from([1, 2, 0.5, 3, 40]), st.sampled_from([30, 4, 3, 1]), st.sampled_from([0, 0, 0, 1, 2]), st.lists(st.one_of(st.just(('failed',)), st.just(('failed',)), st.just(('success',)), st.just(('sleep',)), st.tuples(st.just('advance'), st.sampled_from([0.3, 0.7, 1.1, 2.3, 7.9])),
                      st.tuples(st.just('launch'), st.integers(0, 3), st.booleans())), max_size=14)), 'failed repeatedly', quick=800)
def backoff(case):
    """ExponentialBackoff in one thread"""
    start, limit, grace, steps = case
    sch = S.Scheduler([], False, free_time=False)
    slept = []
    useful = [0]

    def main():
        eb = ExponentialBackoff(start=start, limit=limit, sleep_fun=slept.append, **({'grace_amount': grace} if grace else {}))
        counter, used, until, fails = 0, 0, None, 0

        def model_fail():
            nonlocal counter, used, until
            if used < grace:
                used += 1
            else:
                counter = min(limit, counter * 2 if counter else start)
                until = sch.now + counter

        def model_success():
            nonlocal counter, used, until
            counter, used, until = 0, 0, None
        for s in steps:
            if s[0] == 'failed':
                eb.failed()
                model_fail()
                useful[0] += counter > start
            elif s[0] == 'success':
                eb.success()
                model_success()
            elif s[0] == 'sleep':
                del slept[:]
                eb.sleep()
                eq(slept, [counter], 'slept for')
            elif s[0] == 'advance':
                sch.now += s[1]
            else:
                left, calls = s[1], []
                del slept[:]
                want = []

                def fun(*args, **kwargs):
                    nonlocal left
                    calls.append((args, kwargs))
                    if left:
                        left -= 1
                        raise KeyError('planned')
                    return 'value'
                for _ in range(left):
                    model_fail()
                    want.append(counter)
                if s[2]:
                    got = eb.launch(KeyError, immediate=True)(fun)
                    check(callable(got), 'launch returned %r', got)
                    eq(calls, [((), {})] * (s[1] + 1), 'calls')
                else:
                    g = eb.launch((KeyError, TypeError))(fun)
                    eq(calls, [], 'calls before the call')
                    eq(g(1, x=2), 'value', 'value returned')
                    eq(calls, [((1,), {'x': 2})] * (s[1] + 1), 'calls')
                eq(slept, want, 'slept when launching')
                model_success()

                @eb.launch(KeyError)
                def other():
                    raise LookupError('not this one')
                try:
                    other()
                except LookupError as e:
                    check(type(e) is LookupError, 'raised %r', e)
            eq(eb.available, counter == 0, 'available')
            if until is None or abs(until - sch.now) > 1e-3:
                ready = until is None or sch.now > until
                got = eb.time_until_next_check()
                if ready:
                    eq(got, None, 'time_until_next_check()')
                else:
                    check(got is not None and abs(got - (until - sch.now)) < 1e-3, 'time_until_next_check() is %r, and not %r', got, until - sch.now)
                eq(eb.ready_for_next_check, ready, 'ready_for_next_check')
        return True
    sch.run(main)
    return useful[0]


TICK = 0.01


@prop.facet(st.tuples(st.sampled_from([1, 2, 5]), st.sampled_from([30, 4]), st.lists(st.one_of(st.just('failed'), st.just('failed'), st.just('success'), st.sampled_from([-2e-6, 0.0, 3e-6, 6e-6, 1e-5, 2e-5]).map(lambda x: ('expiry', x)), st.sampled_from([0.0, 0.6, 1.3, 2.2, 6.1])), min_size=1, max_size=8),
                      st.lists(st.tuples(st.sampled_from([0.0, 0.0, 0.5, 1.7]), st.one_of(st.none(), st.sampled_from([0.4, 1.5, 3.3, 8.0]))), min_size=1, max_size=3), S.schedules(), st.sampled_from([True, True, False])),
            'somebody waited', quick=1500, thorough=30000)
def waiting(case):
    """Threads in wait_until_available() and one reporting failures and successes"""
    start, limit, steps, waiters, schedule, trace = case
    sch = S.Scheduler(schedule, trace, free_time=False)
    eb = ExponentialBackoff(start=start, limit=limit)
    log = []        # (moment before, moment after, unavailable until)
    outcomes = []

    def now():      # no two events are at the same time
        sch.now += 1e-6
        return sch.now

    def control():
        counter = 0
        for s in steps:
            t = now()
            if s == 'failed':
                counter = min(limit, counter * 2 if counter else start)
                log.append([t, None, counter])
                eb.failed()
                log[-1][1] = now()
            elif s == 'success':
                counter = 0
                log.append([t, None, None])
                eb.success()
                log[-1][1] = now()
            else:
                S._sleep(max(0, counter + s[1]) if isinstance(s, tuple) else s)

    def waiter(delay, timeout):
        if delay:
            S._sleep(delay)
        for _ in range(2):
            once(timeout)

    def once(timeout):
        t0 = now()
        try:
            if timeout is None:
                eb.wait_until_available()
            else:
                eb.wait_until_available(timeout)
            outcomes.append((t0, now(), timeout, True))
        except WouldWaitMore:
            outcomes.append((t0, now(), timeout, False))

    sch.run(control, *[lambda w=w: waiter(*w) for w in waiters])
    eq(len(outcomes), 2 * len(waiters), 'number of waiters that returned')
    # periods of being surely available
    free, t = [], -math.inf
    for before, after, counter in log:
        if t is not None and before > t:
            free.append((t, before))
        t = after if counter is None else after + counter
    free.append((t, math.inf))
    # periods of being surely unavailable
    taken = []
    for i, (before, after, counter) in enumerate(log):
        if counter is not None:
            end = before + counter
            if i + 1 < len(log):
                end = min(end, log[i + 1][0])
            taken.append((after, end))
    useful = 0
    for t0, t1, timeout, ok in outcomes:
        useful += t1 - t0 > TICK
        for a, b in free:
            check(min(b, t1) - max(a, t0) <= TICK, 'waited from %s to %s, despite the service being available from %s to %s', t0, t1, a, b)
        if ok:
            for a, b in taken:
                check(not (a < t0 and t1 < b - 1e-7), 'returned at %s, having waited since %s, but unavailable from %s to %s', t1, t0, a, b)
        else:
            check(t1 - t0 >= timeout - 1e-9, 'timed out after %s instead of %s', t1 - t0, timeout)
        if timeout is not None:
            check(t1 - t0 <= timeout + TICK, 'waited for %s, with timeout of %s', t1 - t0, timeout)
    return useful
