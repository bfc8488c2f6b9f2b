"""P18: terminable threads, timers and groups of callbacks do what they were told, when they were told"""
import sched as S       # before satella
import threading
import time

from hypothesis import strategies as st

from harness import Property, check, eq, Violation, raises, in_child, patched
from gen import op, ops

from satella.coding.concurrent import TerminableThread, IntervalTerminableThread, SingleStartThread, \
    BogusTerminableThread, Timer, ThreadCollection, CallableGroup, CancellableCallback, CallNoOftenThan, Condition
from satella.exceptions import WouldWaitMore

prop = Property('P18', ['threads are switched by the harness and time is virtual; actions of different threads happen at distinct moments'])
START = 1000.0


class A(Exception):
    pass


class SubA(A):
    pass


class B(Exception):
    pass


EXC = {'A': A, 'SubA': SubA, 'B': B, 'exit': SystemExit}
excs = st.sampled_from([None, None, None, None, 'A', 'SubA', 'B', 'exit'])
TERMINATE_ON = {'none': None, 'A': A, 'AB': (A, B)}


def now():
    return S.current.now - START


def near(a, b, eps=0.02):
    return abs(a - b) < eps


# ----------------------------------------------------------------- threads that loop
@prop.facet(st.tuples(st.booleans(), st.sampled_from(sorted(TERMINATE_ON)), excs, st.integers(0, 2),
                      st.lists(st.tuples(st.integers(0, 6), excs), max_size=6), st.integers(1, 5), st.integers(0, 25),
                      st.sampled_from(['terminate', 'context', 'self']), S.schedules(15)),
            'three iterations', quick=1500, thorough=20000)
def looping(case):
    interval, t_on, prepare_exc, prepare_time, loops, seconds, stop_at, how, schedule = case
    t_on = TERMINATE_ON[t_on]
    stop_at = stop_at + 0.37
    log = {'loops': [], 'cleanup': [], 'overrun': [], 'prepare': [], 'threads': set()}
    hooked = []

    class Base(IntervalTerminableThread if interval else TerminableThread):
        def __init__(self):
            if interval:
                super().__init__('%ss' % seconds if seconds % 2 else seconds, terminate_on=t_on)
            else:
                super().__init__(terminate_on=t_on)

        def prepare(self):
            log['prepare'].append(now())
            log['threads'].add(threading.get_ident())
            time.sleep(prepare_time)
            if prepare_exc:
                raise EXC[prepare_exc]()

        def loop(self):
            i = len(log['loops'])
            log['loops'].append(now())
            log['threads'].add(threading.get_ident())
            duration, exc = loops[i] if i < len(loops) else (1, None)
            if not interval:
                duration = max(duration, 1)
            time.sleep(duration)
            if how == 'self' and i == 3:
                self.terminate()
            if exc:
                raise EXC[exc]()

        def on_overrun(self, time_taken):
            log['overrun'].append((len(log['loops']) - 1, time_taken))

        def cleanup(self):
            log['cleanup'].append(now())
            log['threads'].add(threading.get_ident())

    th = Base()
    ended = []

    def main():
        check(not th.terminating, 'not terminating')
        if how == 'context':
            with th as t:
                check(t is th, 'entering the context returns the thread')
                time.sleep(stop_at)
            check(not th.is_alive(), 'still alive after leaving the context')
        else:
            check(th.start() is th, 'start returns the thread')
            time.sleep(stop_at)
            check(th.terminate() is th, 'terminate returns the thread')
            th.join()
        ended.append(now())

    sch = S.Scheduler(schedule, True, free_time=False)
    with patched(threading, excepthook=lambda args: hooked.append(args.exc_type)):
        sch.run(main)
    # what should have happened
    t = 0.0
    starts, overruns, died, terminated_by_exc = [], [], None, False

    def caught(name):
        return t_on is not None and issubclass(EXC[name], t_on) and name != 'exit'

    t += prepare_time
    over = False
    if prepare_exc:
        over = True
        if caught(prepare_exc):
            terminated_by_exc = True
        elif prepare_exc != 'exit':
            died = EXC[prepare_exc]
    end = t
    stop = stop_at
    while not over:
        if t >= stop:
            end = t
            break
        i = len(starts)
        starts.append(t)
        duration, exc = loops[i] if i < len(loops) else (1, None)
        if not interval:
            duration = max(duration, 1)
        t += duration
        if how == 'self' and i == 3:
            stop = min(t, stop)
        end = t
        if exc:
            if caught(exc):
                terminated_by_exc = True
            elif exc != 'exit':
                died = EXC[exc]
            break
        if t >= stop:
            break
        if interval:
            if duration > seconds:
                overruns.append((i, duration))
            elif duration == seconds:
                pass        # overrun or not, as the virtual clock moves a little on its own
            else:
                rest = seconds - duration
                if stop < t + rest:
                    end = None      # it wakes up within two seconds
                    break
                t += rest
    eq(len(log['loops']), len(starts), 'iterations (%r)' % (log['loops'],))
    for got, want in zip(log['loops'], starts):
        check(near(got, want), 'an iteration started at %s instead of %s', got, want)
    eq(len(log['cleanup']), 1, 'cleanup calls')
    if end is not None:
        check(near(log['cleanup'][0], end), 'cleanup at %s instead of %s', log['cleanup'][0], end)
    else:
        check(log['cleanup'][0] <= stop + 2.02, 'terminated at %s only, ordered at %s', log['cleanup'][0], stop)
    check(near(ended[0], max(log['cleanup'][0], stop_at)), 'joined at %s', ended[0])
    got_over = [(i, t) for i, t in log['overrun'] if not (i < len(loops) and loops[i][0] == seconds or
                                                            i >= len(loops) and seconds == 1)]
    eq(len(got_over), len(overruns), 'overruns %r' % (log['overrun'],))
    for g, w in zip(got_over, overruns):
        check(g[0] == w[0] and near(g[1], w[1]), 'overrun %r, should be %r', g, w)
    eq(hooked, [died] if died else [], 'exceptions that got out')
    check(th.terminating, 'terminating after being terminated')
    check(not th.is_alive(), 'alive')
    eq(len(log['threads']), 1, 'threads that executed it')
    eq(len(log['prepare']), 1, 'calls to prepare')
    return len(starts) >= 3


@prop.facet(st.tuples(st.sampled_from(['sleep', 'wait', 'wait-quiet']), st.integers(-2, 12), st.sampled_from([None, 1, 2, 3]),
                      st.one_of(st.none(), st.integers(0, 13)), st.one_of(st.none(), st.integers(0, 13)), st.booleans(), S.schedules(12)),
            'terminated or notified in the midst', quick=1000, thorough=15000)
def safe_waiting(case):
    kind, interval, each, stop_at, notify_at, strings, schedule = case
    result = []
    cond = Condition()

    class T(TerminableThread):
        def run(self):
            kw = {} if each is None else {'wake_up_each': '%ds' % each if strings and kind != 'sleep' else each}
            try:
                if kind == 'sleep':
                    self.safe_sleep(interval, **kw)
                else:
                    x = '%ds' % interval if strings and interval >= 0 else interval
                    self.safe_wait_condition(cond, x, dont_raise=kind == 'wait-quiet', **kw)
                result.append(('ok', now()))
            except SystemExit:
                result.append(('exit', now()))
            except WouldWaitMore:
                result.append(('timeout', now()))

    th = T()

    def at(t, f):
        def g():
            time.sleep(t)
            f()
        return g

    funs = [lambda: (th.start(), th.join())]
    if stop_at is not None:
        funs.append(at(stop_at + 0.37, th.terminate))
    if notify_at is not None:
        funs.append(at(notify_at + 0.71, cond.notify_all))
    S.Scheduler(schedule, True, free_time=False).run(*funs)
    step = 2 if each is None else each
    stop = 99 if stop_at is None else stop_at + 0.37
    notified = 99 if notify_at is None or kind == 'sleep' else notify_at + 0.71
    what, when = result[0]
    natural = max(interval, 0)
    if notified < min(natural, stop):
        check(what == 'ok' and near(when, notified), 'notified at %s: %r at %s', notified, what, when)
        return True
    if stop < natural:
        if what == 'ok' and notified < natural:
            # was notified before it noticed that it has to terminate
            check(near(when, notified) and notified < stop + step, 'wrong moment')
        elif what != 'exit' and kind != 'sleep' and stop > natural - step:
            # it noticed the deadline instead
            check(near(when, natural) and what == ('timeout' if kind == 'wait' else 'ok'), 'wrong end: %r %s', what, when)
        else:
            check(what == 'exit' and stop <= when <= min(stop + step, natural) + 0.02, 'ordered to stop at %s: %r at %s', stop, what, when)
        return True
    if kind == 'sleep':
        check(what == 'ok' and near(when, natural), 'slept until %s: %r', when, what)
    else:
        check(what == ('timeout' if kind == 'wait' else 'ok') and near(when, natural), 'waited until %s: %r', when, what)
    return False


# ----------------------------------------------------------------- simple threads
@prop.facet(st.tuples(st.integers(1, 4), st.lists(st.integers(0, 3), min_size=1, max_size=4)), 'started twice', quick=200)
def single_start(case):
    starts, args = case
    ran = []

    class T(SingleStartThread):
        def run(self):
            ran.append(1)
            super().run()

    out = []
    th = T(target=lambda *a, **k: out.append((a, k)), args=tuple(args), kwargs={'x': 1})

    def main():
        for _ in range(starts):
            check(th.start() is th, 'start returns the thread')
        th.join()

    S.Scheduler([], True).run(main)
    eq((ran, out), ([1], [(tuple(args), {'x': 1})]), 'executed')
    return starts > 1


@prop.facet(ops(op('start'), op('terminate'), op('join', st.sampled_from([None, 0, 1, 5])), op('alive'), max_size=8, min_size=1),
            'three operations', quick=600)
def bogus(case):
    b = BogusTerminableThread()
    state = {'started': False, 'terminated': False}

    def main():
        for o in case:
            if o[0] == 'start':
                if state['terminated'] or state['started']:
                    raises(RuntimeError, b.start)
                else:
                    b.start()
                    state['started'] = True
            elif o[0] == 'terminate':
                b.terminate()
                state['terminated'] = True
            elif o[0] == 'join':
                if not state['started'] and not state['terminated']:
                    raises(RuntimeError, b.join, 0)
                elif not state['terminated']:
                    if o[1] is None:
                        continue
                    t = now()
                    raises(WouldWaitMore, b.join, o[1])
                    check(o[1] <= now() - t <= o[1] + 1.02, 'waited for %s', now() - t)
                else:
                    b.join(o[1])
            eq(b.is_alive(), state['started'] and not state['terminated'], 'is_alive after %r' % (o,))
            eq((b.started if not b.terminated else None, b.terminated),
               (state['started'] if not state['terminated'] else None, state['terminated']), 'attributes')
        if state['started'] and not state['terminated']:
            def later():
                time.sleep(3.5)
                b.terminate()

            threading.Thread(target=later).start()
            t = now()
            b.join()
            check(3.5 <= now() - t <= 5, 'joined after %s', now() - t)

    S.Scheduler([], True, free_time=False).run(main)
    return len(case) >= 3


# ----------------------------------------------------------------- timers
timer = st.tuples(st.integers(0, 5), st.one_of(st.integers(0, 90), st.integers(0, 6)), st.one_of(st.none(), st.none(), st.integers(0, 12)),
                  st.booleans(), st.booleans(), st.booleans())


@prop.facet(st.tuples(st.lists(timer, min_size=1, max_size=5), S.schedules(12)), 'two timers were executed', quick=250,
            thorough=4000)
def timers(case):
    todo, schedule = case

    def inside():
        fired, where = {}, {}

        def main(i, start, interval, cancel, spawn, fails, string):
            def f():
                time.sleep(start + 0.01 * i)

                def fun(a, b=None):
                    check(a == i and b == -i, 'wrong arguments')
                    fired.setdefault(i, []).append(now())
                    where.setdefault(spawn, []).append(threading.current_thread())
                    if spawn:
                        time.sleep(30)      # keeps no other one waiting
                    if fails:
                        raise ValueError()

                t = Timer('%ds' % interval if string else interval, fun, args=[i], kwargs={'b': -i}, **({'spawn_separate': True} if spawn else {}))
                t.start()
                if cancel is not None:
                    time.sleep(cancel + 0.5)
                    t.cancel()
                time.sleep(100)
            return f

        with patched(threading, excepthook=lambda args: None):
            S.Scheduler(schedule, True, free_time=False, max_points=10 ** 6).run(*[main(i, *t) for i, t in enumerate(todo)])
        n = 0
        for i, (start, interval, cancel, spawn, fails, string) in enumerate(todo):
            due = start + 0.01 * i + interval
            off = 999 if cancel is None else start + 0.01 * i + cancel + 0.5
            got = fired.get(i, [])
            if off < due:
                eq(got, [], 'a cancelled timer %s' % i)
            elif off < due + 1.05 and not got:
                pass    # cancelled before it was picked up
            else:
                eq(len(got), 1, 'executions of timer %s' % (i,))
                check(due - 0.001 <= got[0] <= due + 1.05, 'timer due at %s was executed at %s', due, got[0])
                n += 1
        back, separate = set(where.get(False, [])), where.get(True, [])
        check(len(back) <= 1, 'functions were called in %s threads', len(back))
        check(len(set(separate) | back) == len(separate) + len(back), 'a function that was to have a separate thread shared it')
        return n

    return in_child(inside) >= 2


# ----------------------------------------------------------------- collections of threads
@prop.facet(st.tuples(st.lists(st.tuples(st.integers(0, 5), st.booleans()), max_size=4), st.sampled_from(['init', 'add', 'append', 'iadd', 'iadd-list', 'plus', 'from_class']),
                      st.booleans(), st.sampled_from([None, 1.25, 3.25]), S.schedules(8)), 'two threads', quick=600)
def thread_collection(case):
    threads, how, terminate, timeout, schedule = case
    ended = []

    class T(TerminableThread):
        def __init__(self, d, **kw):
            super().__init__(**kw)
            self.d = d

        def loop(self):
            time.sleep(self.d + 0.5)
            ended.append(self)
            self.terminate()

    class Plain(threading.Thread):
        def __init__(self, d, **kw):
            super().__init__(**kw)
            self.d = d

        def run(self):
            time.sleep(self.d + 0.5)
            ended.append(self)

    def main():
        if how == 'from_class':
            tc = ThreadCollection.from_class(T, iter([d for d, _ in threads]), daemon=True)
            ts = list(tc)
            eq([t.d for t in ts], [d for d, _ in threads], 'arguments')
            check(all(t.daemon for t in ts), 'keyword arguments')
        else:
            ts = [(T if x else Plain)(d) for d, x in threads]
            if how == 'init':
                tc = ThreadCollection(iter(ts))
            else:
                tc = first = ThreadCollection(ts[:1])
                for t in ts[1:]:
                    if how == 'iadd':
                        tc += t
                    elif how == 'iadd-list':
                        tc += (x for x in [t])
                    elif how == 'plus':
                        before = list(tc)
                        new = tc + (t if t.d % 2 else [t]) if t.d % 3 else tc + ThreadCollection([t])
                        eq(list(tc), before, '+ must not alter')
                        tc = new
                    else:
                        check(getattr(tc, how)(t) is tc, 'returns self')
                if how != 'plus':
                    check(tc is first, 'in place')
        eq(list(tc), ts, 'threads')
        eq(len(tc), len(ts), 'length')
        tc.daemon = True
        check(all(t.daemon for t in ts), 'daemon')
        eq(tc.daemon, bool(ts), 'daemon')
        check(not tc.is_alive(), 'nobody is alive yet')
        check(tc.start() is tc, 'returns self')
        eq(tc.is_alive(), bool(ts), 'alive')
        for args in ((), (True,), (False,)):
            running = list(ThreadCollection.get_currently_running(*args))
            check(all(t in running for t in ts), 'some of running threads are not in the collection')
            eq(threading.main_thread() in running, args != (False,), 'main thread in the collection')
            check(len(set(running)) == len(running), 'threads repeat')
        began = now()
        if terminate:
            check(tc.terminate() is tc, 'returns self')
            check(all(t.terminating for t in ts if isinstance(t, T)), 'all are terminating')
        # every one of them has the timeout of its own
        t, fails = 0.0, False
        for x in ts:
            d = 0 if terminate and isinstance(x, T) and t < 0 else x.d + 0.5
            if timeout is not None and d > t + timeout:
                fails = True
                t += timeout
                break
            t = max(t, d)
        if terminate and any(isinstance(x, T) for x in ts):
            # a thread which was terminated early might not do a single loop
            try:
                tc.join(timeout)
            except WouldWaitMore:
                check(any(x.is_alive() for x in ts), 'join failed, though all of them have ended')
        elif fails:
            raises(WouldWaitMore, tc.join, timeout)
            check(near(now() - began, t), 'gave up after %s instead of %s', now() - began, t)
        else:
            check(tc.join(timeout=timeout) is tc, 'returns self')
            check(near(now() - began, t), 'joined after %s instead of %s', now() - began, t)
            eq(set(ended), set(ts), 'finished')
        tc.join()
        check(not tc.is_alive(), 'nobody is alive after a join')

    S.Scheduler(schedule, True, free_time=False).run(main)
    return len(threads) > 1


# ----------------------------------------------------------------- callbacks
_add = op('add', st.sampled_from([False, False, True]),
          st.sampled_from(['ok', 'ok', 'ok', 'ok', 'none', 'raise', 'raise', 'raise', 'adder', 'canceller']), st.booleans())
group_ops = ops(_add, _add, _add, op('readd', st.integers(0, 9), st.booleans()), op('cancel', st.integers(0, 9)), op('call', st.integers(0, 9)), op('call', st.integers(0, 9)),
                op('remove'), op('has'), max_size=30, min_size=6)


@prop.facet(st.tuples(st.booleans(), st.booleans(), group_ops), 'two calls with two callbacks', quick=2000, thorough=40000)
def callable_group(case):
    gather, swallow, todo = case
    cg = CallableGroup(gather=gather, swallow_exceptions=swallow)
    every = []          # all the callbacks ever: dicts
    order = []          # those registered, in order
    calls = []
    interesting = 0
    unordered = False
    for o in todo:
        if o[0] == 'add':
            entry = {'one_shot': o[1], 'kind': o[2], 'id': len(every), 'cancelled': False}

            def fun(*args, entry=entry, **kwargs):
                calls.append((entry['id'], args, kwargs))
                if entry['kind'] == 'raise' and args[0] % 2:
                    raise ValueError(entry['id'])
                if entry['kind'] == 'none':
                    return None
                if entry['kind'] == 'adder' and not entry.get('added'):
                    entry['added'] = True
                    new = {'one_shot': False, 'kind': 'ok', 'id': len(every), 'cancelled': False}

                    def f2(*args, **kwargs):
                        calls.append((new['id'], args, kwargs))
                        return new['id']

                    new['callback'] = cg.add(f2)
                    every.append(new)
                    fresh.append(new)
                if entry['kind'] == 'canceller':
                    for e in order:
                        if e['id'] > entry['id']:
                            e['callback'].cancel()
                            e['cancelled'] = True
                return entry['id']

            if o[3]:
                cc = CancellableCallback(fun)
                check(cg.add(cc, one_shot=o[1]) is cc, 'add returns the cancellable callback given')
            else:
                cc = cg.add(fun, o[1])
                check(isinstance(cc, CancellableCallback), 'add returns a cancellable callback')
            entry['callback'] = cc
            every.append(entry)
            order.append(entry)
        elif o[0] == 'readd':
            if order:
                e = order[o[1] % len(order)]
                check(cg.add(e['callback'], one_shot=o[2]) is e['callback'], 'added twice')
        elif o[0] == 'cancel':
            if every:
                e = every[o[1] % len(every)]
                e['callback'].cancel()
                e['cancelled'] = True
                check(not e['callback'] and e['callback'].cancelled, 'cancelled')
        elif o[0] == 'remove':
            cg.remove_cancelled()
            order = [e for e in order if not e['cancelled']]
        elif o[0] == 'has':
            eq(bool(cg.has_cancelled_callbacks), any(e['cancelled'] for e in order), 'has_cancelled_callbacks')
        else:
            order = [e for e in order if not e['cancelled']]
            before = {e['id'] for e in order}
            calls, fresh = [], []
            if len(order) >= 2:
                interesting += 1
            snapshot = order[:]
            try:
                res = cg(o[1], key=o[1])
                failed = None
            except ValueError as e:
                failed = e
                check(not swallow, 'exceptions were to be swallowed')
            # what should have happened
            want_calls, want_res, stop, gone = [], [], None, set()
            cancelled_now = set()
            for e in snapshot:
                if e['id'] in cancelled_now:
                    want_res.append(None)
                    if e['one_shot']:
                        gone.add(e['id'])
                    continue
                want_calls.append((e['id'], (o[1],), {'key': o[1]}))
                if e['one_shot']:
                    gone.add(e['id'])
                if e['kind'] == 'raise' and o[1] % 2:
                    if not swallow:
                        stop = e
                        break
                    want_res.append(ValueError)
                elif e['kind'] == 'none':
                    want_res.append(None)
                else:
                    if e['kind'] == 'canceller':
                        cancelled_now |= {x['id'] for x in snapshot if x['id'] > e['id']}
                    want_res.append(e['id'])
            if unordered:
                if stop is not None or 'canceller' in {e['kind'] for e in snapshot} or failed is not None:
                    return interesting >= 2
                eq(sorted(c[0] for c in calls), sorted(c[0] for c in want_calls), 'callbacks called')
            else:
                eq(calls, want_calls, 'callbacks called')
                if stop is not None:
                    check(failed is not None and failed.args == (stop['id'],), 'the exception must propagate')
                else:
                    check(failed is None, 'unexpected exception')
                    if gather:
                        eq([type(x) if isinstance(x, Exception) else x for x in res], want_res, 'results')
                    else:
                        check(res is None, 'nothing is to be gathered')
            order = [e for e in order if e['id'] not in gone]
            if fresh:
                order.extend(fresh)
                unordered = True
    return interesting >= 2


@prop.facet(st.tuples(st.integers(0, 5), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 2)), min_size=1, max_size=10), st.booleans()),
            'some call was omitted and some executed', quick=600)
def no_often_than(case):
    interval, calls, early = case
    ran = []

    def main():
        def fun(a, *, b):
            ran.append(now())
            time.sleep(b)
            return ('r', a) if a % 2 else ()

        c = CallNoOftenThan(interval, fun)
        last = None
        for i, (gap, duration) in enumerate(calls):
            time.sleep(gap + 0.1)
            t = now()
            r = c(i, b=duration)
            if last is None or t - last[1] >= interval:
                check(r == (('r', i) if i % 2 else ()) and ran and near(ran[-1], t), 'a call %s seconds after the last one was omitted', t - last[1] if last else None)
                last = (t, now())
            elif t - last[0] < interval:
                check(r is None and ran[-1] < t, 'a call was made %s seconds after the last one', t - last[0])
            elif r is not None:     # between these two it's up to the interpretation
                last = (t, now())

    sch = S.Scheduler([], True, free_time=False, start=0.5 if early else START)
    sch.run(main)
    return len(calls) > len(ran) > 1


@prop.facet(st.lists(st.sampled_from(['call', 'cancel', 'bool', 'eq']), min_size=1, max_size=6), 'called and cancelled', quick=200)
def cancellable_callback(case):
    calls = []
    c = CancellableCallback(lambda *a, **k: (calls.append((a, k)), 5)[1])
    d = CancellableCallback(c.callback_fun)
    cancelled = False
    for o in case:
        if o == 'call':
            n = len(calls)
            r = c(1, x=2)
            eq((r, calls[n:]), (None, []) if cancelled else (5, [((1,), {'x': 2})]), 'call')
        elif o == 'cancel':
            c.cancel()
            cancelled = True
        eq((bool(c), c.cancelled, bool(d)), (not cancelled, cancelled, True), 'truth value')
        check(c == c and c != d and len({c, d, c}) == 2, 'equality by identity')
    return cancelled and bool(calls)
