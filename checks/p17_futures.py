"""P17: futures complete exactly once, with the proper result, and everyone hears of it"""
import sched as S       # before satella
import time
import concurrent.futures
from concurrent.futures import Future as PythonFuture, CancelledError, ThreadPoolExecutor

from hypothesis import strategies as st

from harness import Property, check, eq, Violation, raises
from gen import op, ops

from satella.coding.concurrent.futures import Future, WrappingFuture, FutureCollection, ExecutorWrapper, call_in_future, wrap_if, InvalidStateError
from satella.coding.concurrent import \
    run_as_future, call_in_separate_thread, parallel_execute, parallel_construct, sync_threadpool
from satella.exceptions import WouldWaitMore

prop = Property('P17', ['threads are switched by the harness, at any statement of satella and any operation upon a lock',
                        'pools of at most 3 workers'])
traces = st.sampled_from([True, True, True, False])


class Boom(Exception):
    def __eq__(self, other):
        return type(other) is type(self) and self.args == other.args

    def __hash__(self):
        return hash(self.args)


class Exit(SystemExit):
    def __eq__(self, other):
        return type(other) is type(self) and self.args == other.args

    __hash__ = None


def outcome(fut):
    """Outcome of a completed future"""
    if fut.cancelled():
        return ('cancelled',)
    e = fut.exception(timeout=0)
    if e is not None:
        return ('exc', e)
    return ('ok', fut.result(timeout=0))


# ----------------------------------------------------------------- sequential histories
pre = st.one_of(st.tuples(st.just('add'), st.integers(1, 5)), st.tuples(st.just('fail'), st.integers(0, 3)),
                st.tuples(st.just('heal'), st.integers(0, 3)), st.just(('raise',)), st.just(('nothing',)))
reg_ops = st.lists(st.one_of(op('pre', pre), op('done', st.booleans()), op('success', st.booleans()),
                             op('failure', st.booleans()), op('chain', st.booleans()), op('run')), max_size=8)
any_ops = ops(op('pre', pre), op('done', st.booleans()), op('success', st.booleans()), op('failure', st.booleans()),
                  op('chain', st.booleans()), op('complete', st.sampled_from(['ok', 'exc']), st.integers(0, 5)),
                  op('cancel'), op('run'), max_size=12)
history_ops = st.one_of(any_ops, st.tuples(reg_ops, st.one_of(
    op('complete', st.sampled_from(['ok', 'ok', 'exc']), st.integers(0, 5)), op('cancel')), any_ops).map(
    lambda x: x[0] + [x[1]] + x[2]))


@prop.facet(st.tuples(st.sampled_from(['plain', 'wrapping', 'wrapping']), st.booleans(), history_ops),
            'completed with a pre-done callback and another registered', quick=2000, thorough=40000)
def future_history(case):
    kind, late_wrap, todo = case
    source = Future() if kind == 'plain' else PythonFuture()
    fut = source
    if kind == 'wrapping':
        if late_wrap:
            # the source already has a result when it gets wrapped
            for i, o in enumerate(todo):
                if o[0] in ('complete', 'cancel'):
                    todo = [o] + todo[:i] + todo[i + 1:]
                    break
        else:
            fut = WrappingFuture(source)
    pres, done, calls, expected = [], False, [], []
    cancelled = running = False
    result = None
    registered = 0

    def apply_pre(r):
        for p in pres:
            if p[0] == 'add' and r[0] == 'ok':
                r = ('ok', r[1] + p[1])
            elif p[0] == 'fail':
                r = ('exc', Boom(p[1]))
            elif p[0] == 'heal' and r[0] == 'exc':
                r = ('ok', p[1])
        return r

    regs = []

    def announce(reg):
        what, i, noisy = reg
        if what == 'done':
            expected.append((i, 'future'))
        elif what == 'success' and result[0] == 'ok':
            expected.append((i, result[1]))
        elif what == 'failure' and result[0] == 'exc':
            expected.append((i, result[1]))
        elif what == 'chain' and result[0] != 'cancelled':
            expected.append((i, result[1]))

    interesting = False
    for n, o in enumerate(todo):
        if o[0] == 'pre':
            if kind == 'wrapping' and fut is source:
                fut = WrappingFuture(source)

            def cb(f, p=o[1]):
                check(f is fut, 'a callback gets its own future')
                if p[0] == 'add':
                    if f.exception() is None:
                        f.set_result(f.result() + p[1])
                elif p[0] == 'fail':
                    f.set_exception(Boom(p[1]))
                elif p[0] == 'heal':
                    if f.exception() is not None:
                        f.set_result(p[1])
                elif p[0] == 'raise':
                    raise ValueError()

            if cancelled:
                continue
            fut.add_pre_done_callback(cb)
            if not done:
                pres.append(o[1])
        elif o[0] in ('done', 'success', 'failure', 'chain'):
            if kind == 'wrapping' and fut is source:
                fut = WrappingFuture(source)
            if o[0] == 'chain' and cancelled:
                continue
            reg = (o[0], n, o[1])

            def cb(x, reg=reg):
                if reg[0] == 'done':
                    check(x is fut and fut.done(), 'a callback gets a future that is done')
                    calls.append((reg[1], 'future'))
                elif reg[0] != 'chain' or not fut.cancelled():
                    calls.append((reg[1], x))
                if reg[2]:
                    raise ValueError('noisy callback')

            m = {'done': 'add_done_callback', 'success': 'on_success', 'failure': 'on_failure', 'chain': 'chain'}[o[0]]
            r = getattr(fut, m)(cb)
            if o[0] != 'done':
                check(r is fut, '%s returns the future', m)
            registered += 1
            if done:
                announce(reg)
            else:
                regs.append(reg)
        elif o[0] == 'complete':
            value = ('ok', o[2]) if o[1] == 'ok' else ('exc', Boom(o[2]))
            f = source.set_result if o[1] == 'ok' else source.set_exception
            if done:
                raises(InvalidStateError, f, value[1])
                continue
            wrapped = fut if kind == 'plain' or fut is not source else None
            result = apply_pre(value) if wrapped is not None else value
            done = True
            interesting = bool(pres) and registered > 0
            f(value[1])
            for reg in regs:
                announce(reg)
        elif o[0] == 'run':
            if running or done:
                continue
            check(fut.set_running_or_notify_cancel() is True, 'starting')
            check(fut.running() and not fut.done(), 'it is running')
            running = True
        elif o[0] == 'cancel':
            r = fut.cancel()
            if cancelled:
                check(r, 'cancel of cancelled')
            elif done or running:
                check(not r, 'cancelling a future which started')
            else:
                check(r, 'cancel must succeed')
                cancelled = done = True
                result = ('cancelled',)
                for reg in regs:
                    announce(reg)
        eq(calls, expected, 'callbacks called after %r' % (o,))
        eq(fut.done(), done, 'done')
        eq(fut.cancelled(), cancelled, 'cancelled')
        if done:
            if kind == 'wrapping' and fut is source:
                fut = WrappingFuture(source)
            eq(outcome(fut), result, 'outcome after %r' % (o,))
            if result[0] == 'exc':
                raises(Boom, fut.result)
            elif result[0] == 'cancelled':
                raises(CancelledError, fut.result)
                raises(CancelledError, fut.exception)
        else:
            raises(concurrent.futures.TimeoutError, fut.result, timeout=0)
            raises(concurrent.futures.TimeoutError, fut.exception, timeout=0)
    check(wrap_if(source) is source if kind == 'plain' else isinstance(wrap_if(source), Future), 'wrap_if')
    return interesting


# ----------------------------------------------------------------- concurrent histories
@prop.facet(st.tuples(st.sampled_from(['plain', 'wrapping', 'wrap-late']), st.lists(
    st.sampled_from(['result', 'exception', 'cancel', 'callback', 'success', 'pre', 'wait', 'as_completed', 'timed']), min_size=1, max_size=4),
                      st.integers(0, 2), st.booleans(), S.schedules(), traces), 'at least two threads besides the worker',
            quick=1500, thorough=30000)
def future_threads(case):
    kind, who, pre_count, fails, schedule, trace = case
    source = Future() if kind == 'plain' else PythonFuture()
    box = {}
    if kind == 'plain':
        box['fut'] = source
    elif kind == 'wrapping':
        box['fut'] = WrappingFuture(source)
    seen, called, added = [], [], []
    late = []

    def transform(f):
        S.current.point()
        if f.exception() is None:
            f.set_result(f.result() + 1)
        S.current.point()
        if f.exception() is None:
            check(f.result() >= 1, 'a change by a pre-done callback is visible to it')

    if kind != 'wrap-late':
        for _ in range(pre_count):
            box['fut'].add_pre_done_callback(transform)

    def get():
        if 'fut' not in box:
            box['fut'] = WrappingFuture(source)
        return box['fut']

    def worker():
        if source.set_running_or_notify_cancel():
            S.current.point()
            if fails:
                source.set_exception(Boom(1))
            else:
                source.set_result(10)
            seen.append('worked')

    def actor(i, what):
        def f():
            fut = WrappingFuture(source) if kind == 'wrap-late' else box['fut']
            n = 1
            if what in ('result', 'timed'):
                try:
                    seen.append(('ok', fut.result(timeout=10 ** 6 if what == 'timed' else None)))
                except CancelledError:
                    seen.append(('cancelled',))
                except Boom as e:
                    seen.append(('exc', e))
            elif what == 'exception':
                try:
                    e = fut.exception()
                    seen.append(('exc', e) if e is not None else ('ok', fut.result()))
                except CancelledError:
                    seen.append(('cancelled',))
            elif what == 'cancel':
                if fut.cancel():
                    seen.append(('cancelled',))
            elif what == 'callback':
                added.append(i)
                fut.add_done_callback(lambda x: (called.append(i), check(x is fut, 'own future'), seen.append(outcome(fut))))
            elif what == 'success':
                fut.on_success(lambda r: seen.append(('ok', r)))
                fut.on_failure(lambda r: seen.append(('exc', r)))
            elif what == 'pre':
                late.append(i)
                fut.add_pre_done_callback(lambda x: called.append(i))
            elif what == 'wait':
                done, not_done = concurrent.futures.wait([fut])
                check(fut in done, 'waited for')
                seen.append(outcome(fut))
            elif what == 'as_completed':
                eq(list(concurrent.futures.as_completed([fut])), [fut], 'as_completed')
                seen.append(outcome(fut))

        return f

    sch = S.Scheduler(schedule, trace, free_time=False)
    sch.run(worker, *[actor(i, w) for i, w in enumerate(who)])
    check(sch.now < 2000, 'a wakeup was lost')
    fut = WrappingFuture(source) if kind == 'wrap-late' else box['fut']
    check(fut.done(), 'it should be done')
    final = outcome(fut)
    if final[0] == 'cancelled':
        check('worked' not in seen and source.cancelled(), 'both cancelled and executed')
    else:
        check('worked' in seen, 'not cancelled, though never executed')
        eq(final, ('exc', Boom(1)) if fails else ('ok', 10 + (0 if kind == 'wrap-late' else pre_count)), 'final outcome')
    for s in seen:
        if s != 'worked':
            eq(s, final, 'an outcome observed')
    eq(sorted(i for i in called if i in added), sorted(added), 'callbacks called exactly once')
    return len(who) >= 2


# ----------------------------------------------------------------- collections
@prop.facet(st.tuples(st.lists(st.sampled_from(['pending', 'running', 'done', 'failed', 'cancelled']), max_size=4), ops(
    op('add', st.sampled_from(['future', 'collection', 'list', 'tuple', 'method', 'plus'])), op('cancel'), op('run'), op('set', st.integers(0, 5)),
    op('fail', st.integers(0, 5)), op('result'), op('exception'), op('callback', st.booleans()), op('one', st.integers(0, 5)),
    max_size=8)), 'two futures and two operations', quick=1000)
def collection(case):
    states, todo = case

    def make(state):
        f = PythonFuture()
        if state == 'running':
            f.set_running_or_notify_cancel()
        elif state == 'done':
            f.set_result(77)
        elif state == 'failed':
            f.set_exception(Boom(77))
        elif state == 'cancelled':
            f.cancel()
        return f

    fs = [make(s) for s in states]
    fc = FutureCollection(fs[:])
    calls, expected = [], []
    watchers = []
    for o in todo:
        if o[0] == 'add':
            new = [PythonFuture()] if o[1] in ('future', 'method') else [PythonFuture(), PythonFuture()]
            if o[1] == 'future':
                fc2 = fc
                fc2 += new[0]
            elif o[1] == 'method':
                fc2 = fc.add(new[0])
            elif o[1] == 'collection':
                fc2 = fc
                fc2 += FutureCollection(new)
            elif o[1] == 'list':
                fc2 = fc
                fc2 += new
            elif o[1] == 'tuple':
                fc2 = fc
                fc2 += tuple(new)
            else:
                before = list(fc)
                fc2 = fc + new
                check(list(fc) == before, '+ altered the left side')
                for x in (fc + new[0], fc + FutureCollection(new), fc + tuple(new)):
                    check(isinstance(x, FutureCollection), 'type of a sum')
                    eq(list(x)[:len(before)], before, 'left side of a sum')
                    eq(list(x)[len(before):], new[:len(x) - len(before)], 'right side of a sum')
                fc = fc2
            check(fc2 is fc, 'in-place operations return self')
            fs.extend(new)
        elif o[0] == 'cancel':
            w = [f.cancelled() or not (f.running() or f.done()) for f in fs]
            eq(fc.cancel(), all(w), 'cancel')
            eq([f.cancelled() for f in fs], w, 'states after cancelling')
        elif o[0] == 'run':
            if any(f.running() or f.done() and not f.cancelled() or f._state == 'CANCELLED_AND_NOTIFIED' for f in fs):
                continue
            w = [not f.cancelled() for f in fs]
            eq(bool(fc.set_running_or_notify_cancel()), any(w), 'set_running_or_notify_cancel')
            eq([f.running() for f in fs], w, 'states after starting')
        elif o[0] in ('set', 'fail'):
            if any(f.done() for f in fs):
                continue
            if o[0] == 'set':
                fc.set_result(o[1])
                eq([outcome(f) for f in fs], [('ok', o[1])] * len(fs), 'results')
            else:
                fc.set_exception(Boom(o[1]))
                eq([outcome(f) for f in fs], [('exc', Boom(o[1]))] * len(fs), 'results')
        elif o[0] == 'one':
            left = [f for f in fs if not f.done()]
            if left:
                left[o[1] % len(left)].set_result(o[1])
        elif o[0] == 'callback':
            k = len(watchers)
            watchers.append(k)
            if o[1] and not fs:
                raises(IndexError, fc.add_done_callback, lambda f: None, only_one=True)
                continue
            mine = []
            fc.add_done_callback(mine.append, only_one=o[1])
            expected.append((mine, fs[:1] if o[1] else list(fs)))
        elif o[0] == 'result':
            want = None
            for f in fs:
                if not f.done():
                    want = WouldWaitMore
                elif outcome(f)[0] != 'ok':
                    want = {'exc': Boom, 'cancelled': CancelledError}[outcome(f)[0]]
                if want:
                    break
            if want:
                raises(want, fc.result, 0)
            else:
                eq(fc.result(0), [f.result() for f in fs], 'result')
                eq(fc.result(), [f.result() for f in fs], 'result')
        elif o[0] == 'exception':
            want = ('ok', None)
            for f in fs:
                if not f.done():
                    want = ('raise', WouldWaitMore)
                elif outcome(f)[0] == 'exc':
                    want = ('ok', outcome(f)[1])
                elif outcome(f)[0] == 'cancelled':
                    want = ('raise', CancelledError)
                if want != ('ok', None):
                    break
            if want[0] == 'raise':
                raises(want[1], fc.exception, timeout=0)
            else:
                eq(fc.exception(0), want[1], 'exception')
        eq(len(fc), len(fs), 'length')
        check(all(fc[i] is f for i, f in enumerate(fs)), 'indexing')
        for mine, targets in expected:
            eq(len(mine), len([f for f in targets if f.done()]), 'callbacks called')
            check(all(any(f is t for t in targets) and f.done() for f in mine), 'callbacks of proper futures')
    return len(fs) >= 2 and len(todo) >= 2


# ----------------------------------------------------------------- running functions elsewhere
call = st.tuples(st.sampled_from(['ok', 'ok', 'boom', 'exit', 'none']), st.integers(0, 9), st.integers(0, 2))


def work(kind, value, points, kw=None):
    for _ in range(points):
        S.current.point()
    if points == 2:
        time.sleep(1)
    if kind == 'boom':
        raise Boom(value)
    if kind == 'exit':
        raise Exit(value)
    if kind == 'none':
        return None
    return (value, kw)


def expected_outcome(kind, value, kw=None):
    if kind == 'ok':
        return ('ok', (value, kw))
    if kind == 'none':
        return ('ok', None)
    return ('exc', Boom(value) if kind == 'boom' else Exit(value))


@prop.facet(st.tuples(st.sampled_from(['wrapper', 'call_in_future', 'run_as_future', 'separate', 'separate-delay', 'map']),
                      st.lists(call, min_size=1, max_size=5), st.integers(1, 3), S.schedules(), traces),
            'at least two calls', quick=1000, thorough=20000)
def functions(case):
    kind, calls, workers, schedule, trace = case
    sch = S.Scheduler(schedule, trace, free_time=False)

    def main():
        if kind in ('wrapper', 'call_in_future', 'map'):
            with ThreadPoolExecutor(max_workers=workers) as tpe:
                ex = ExecutorWrapper(tpe)
                if kind == 'map':
                    got = []
                    it = ex.map(lambda c: work(*c), calls)
                    for c in calls:
                        try:
                            got.append(('ok', next(it)))
                        except (Boom, Exit) as e:
                            got.append(('exc', e))
                            break
                    want = []
                    for c in calls:
                        want.append(expected_outcome(c[0], c[1]))
                        if want[-1][0] == 'exc':
                            break
                    eq(got, want, 'map')
                    return
                if kind == 'wrapper':
                    futs = [ex.submit(work, k, v, p, kw=v) for k, v, p in calls]
                else:
                    target = ex if calls[0][1] % 2 else tpe
                    ran = [0]

                    def counted(*args, **kwargs):
                        ran[0] += 1
                        return work(*args, **kwargs)

                    fns = [call_in_future(target, counted, k, v, p, kw=v) for k, v, p in calls]
                    S.current.point()
                    eq(ran[0], 0, 'nothing is executed before calling')
                    futs = [f('ignored', x=2) for f in fns]
                check(all(isinstance(f, Future) for f in futs), 'futures of satella are returned')
                for f, (k, v, p) in zip(futs, calls):
                    e = f.exception()
                    eq(('exc', e) if e is not None else ('ok', f.result()), expected_outcome(k, v, v), 'outcome')
            raises(RuntimeError, tpe.submit, print) if calls[0][1] % 3 == 0 else None
        else:
            if kind == 'run_as_future':
                f = run_as_future(work)
            elif kind == 'separate':
                f = call_in_separate_thread()(work)
            else:
                f = call_in_separate_thread(delay=3, daemon=True)(work)
            eq(f.__name__, 'work', 'name')
            began = S.current.now
            futs = [f(k, v, p, kw=v) for k, v, p in calls]
            check(S.current.now - began < 1, 'calls must not block')
            if kind != 'run_as_future':
                check(all(x.thread.future is x for x in futs), 'thread and future link each other')
            for fu, (k, v, p) in zip(futs, calls):
                e = fu.exception(timeout=10 ** 6)
                eq(('exc', e) if e is not None else ('ok', fu.result()), expected_outcome(k, v, v), 'outcome')
                if kind == 'separate-delay':
                    check(S.current.now - began >= 3, 'the delay was not observed')
            check(S.current.now - began < 20, 'it took too long')

    sch.run(main)
    return len(calls) >= 2


@prop.facet(st.tuples(st.lists(call, max_size=6), st.integers(1, 3), st.booleans(), st.booleans(), S.schedules(), traces),
            'at least three calls', quick=800, thorough=16000)
def parallel(case):
    calls, workers, construct, kwargs, schedule, trace = case
    calls = [(k if k != 'exit' else 'ok', v, p) for k, v, p in calls]

    def main():
        with ThreadPoolExecutor(max_workers=workers) as tpe:
            if construct:
                def go_c(c):
                    r = work(*c)
                    return None if r is None else r[0]

                fail = next((c for c in calls if c[0] == 'boom'), None)
                if fail is not None:
                    e = raises(Boom, parallel_construct, iter(calls), go_c, tpe)
                    eq(e, Boom(fail[1]), 'the first exception')
                else:
                    eq(parallel_construct(iter(calls), go_c, tpe),
                       [v for k, v, p in calls if k == 'ok'], 'parallel_construct')
            else:
                started = []

                def go(k, v, p, **kw):
                    started.append(v)
                    return tpe.submit(work, k, v, p, **kw)

                if kwargs:
                    it = parallel_execute(go, iter(calls), [{'kw': i} for i in range(len(calls))])
                else:
                    it = parallel_execute(go, calls)
                got = list(it)
                want = []
                for i, (k, v, p) in enumerate(calls):
                    r = expected_outcome(k, v, i if kwargs else None)
                    want.append(r[1])
                eq(got, want, 'parallel_execute')
                eq(started, [v for k, v, p in calls], 'calls')

    S.Scheduler(schedule, trace, free_time=False).run(main)
    return len(calls) >= 3


@prop.facet(st.tuples(st.lists(st.integers(0, 4), max_size=6), st.integers(1, 3), st.sampled_from([None, None, 1, 100]),
                      st.booleans(), S.schedules(), traces), 'at least one job took time', quick=700, thorough=10000)
def pool_sync(case):
    jobs, workers, max_wait, wrapped, schedule, trace = case
    done = []

    def main():
        with ThreadPoolExecutor(max_workers=workers) as tpe:
            for i, d in enumerate(jobs):
                tpe.submit(lambda i=i, d=d: (time.sleep(d), done.append(i)))
            began = S.current.now
            try:
                sync_threadpool(ExecutorWrapper(tpe) if wrapped else tpe, max_wait=max_wait)
            except WouldWaitMore:
                check(max_wait is not None, 'timed out without a timeout')
                check(S.current.now - began >= max_wait, 'timed out prematurely')
                check(S.current.now - began < max_wait + 3, 'timed out too late')
                check(len(done) < len(jobs) or S.current.now - began > max_wait, 'timed out though all is done')
            else:
                eq(sorted(done), list(range(len(jobs))), 'jobs complete after synchronization')
                longest = sum(jobs)
                check(S.current.now - began <= longest + 3, 'it took too long')
            # it's still usable, with all of its workers
            barrier = []
            fs = [tpe.submit(barrier.append, i) for i in range(4)]
            for f in fs:
                f.result()
            eq(sorted(barrier), list(range(4)), 'jobs executed later')
        eq(sorted(done), list(range(len(jobs))), 'all jobs')

    S.Scheduler(schedule, trace, free_time=False).run(main)
    return any(jobs)
