"""P15: shared objects are linearizable and no wakeup is lost"""
import sched as S       # before satella
import operator
import queue

from hypothesis import strategies as st

from harness import Property, check, eq, Violation
from gen import op

from satella.coding.concurrent import AtomicNumber, IDAllocator, SequentialIssuer, PeekableQueue, DeferredValue, \
    MonitorSet, Condition
from satella.coding.structures import Subqueue
from satella.exceptions import WouldWaitMore, Empty, AlreadyAllocated

prop = Property('P15', ['threads are switched by the harness, at any statement of satella and any operation '
                        'upon a lock', 'at most 3 threads of 6 operations each'])

traces = st.sampled_from([True, True, True, False])
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
       '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
       '**': operator.pow, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
       '==': operator.eq, '!=': operator.ne}
INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '//': operator.ifloordiv,
           '/': operator.itruediv, '&': operator.iand, '|': operator.ior, '^': operator.ixor,
           '<<': operator.ilshift, '>>': operator.irshift, '**': operator.ipow}
UN = {'int': int, 'float': float, 'bool': bool, 'abs': abs, 'neg': operator.neg, 'pos': operator.pos, 'str': str}


def run_threads(case_threads, schedule, trace, do, free_time=True):
    """Run lists of operations in threads; returns the history and the scheduler"""
    rec = S.Recorder()
    sch = S.Scheduler(schedule, trace, free_time=free_time)

    def body(ops):
        def f():
            for o in ops:
                rec.do(o, lambda: do(o))

        return f

    sch.run(*[body(ops) for ops in case_threads])
    return rec.history, sch


def lin(history, init, step, what):
    check(S.linearizable(history, init, step), 'history of a %s cannot be explained by any order of its operations: %r',
          what, history)


# ----------------------------------------------------------------- sequential behaviour of numbers
nums = st.one_of(st.integers(-20, 40), st.sampled_from([0.5, -1.5, 2.0]))


@prop.facet(st.tuples(nums, st.lists(st.one_of(
    op('bin', st.sampled_from(sorted(BIN)), nums, st.sampled_from(['left', 'right', 'both'])),
    op('in', st.sampled_from(sorted(INPLACE)), nums, st.booleans()),
    op('un', st.sampled_from(sorted(UN))),
    op('pow3', st.integers(0, 5), st.integers(1, 9))), min_size=1, max_size=12)),
    'at least one in-place operation and one other', quick=1500)
def number_as_number(case):
    v, ops = case
    a = AtomicNumber(v)
    kinds = set()

    def outcome(f):
        try:
            r = f()
            return ('ok', r, type(r))
        except Exception as e:
            return ('exc', type(e))

    for o in ops:
        if o[0] == 'bin':
            f, x = BIN[o[1]], o[2]
            if o[1] in ('<<', '**') and abs(v) > 1000:
                continue
            if o[3] == 'right' and o[1] not in ('<', '<=', '>', '>=', '==', '!='):
                w = outcome(lambda: f(x, v))
                g = outcome(lambda: f(x, a))
            else:
                w = outcome(lambda: f(v, x))
                g = outcome(lambda: f(a, AtomicNumber(x) if o[3] == 'both' else x))
            if isinstance(w[-1], type) and w[-1] is complex:
                continue
            eq(g, w, '%r %s %r (%s)' % (v, o[1], x, o[3]))
            kinds.add('b')
        elif o[0] == 'in':
            f, x = INPLACE[o[1]], o[2]
            w = outcome(lambda: f(v, x))
            if w[0] == 'ok' and (isinstance(w[1], complex) or abs(w[1]) > 2 ** 64):
                continue
            if w[0] == 'ok':
                b = f(a, AtomicNumber(x) if o[3] else x)
                check(b is a, 'an in-place operation must return the same atomic number')
                v = w[1]
                kinds.add('i')
            else:
                try:
                    f(a, x)
                except w[1]:
                    pass
                else:
                    raise Violation('%r %s= %r succeeded' % (v, o[1], x))
            eq((a.value, type(a.value)), (v, type(v)), 'after %s=' % (o[1],))
        elif o[0] == 'un':
            eq(outcome(lambda: UN[o[1]](a)), outcome(lambda: UN[o[1]](v)), o[1])
        else:
            eq(outcome(lambda: pow(a, o[1], o[2])), outcome(lambda: pow(v, o[1], o[2])), 'pow')
        # it's still usable
        eq(float(a), float(v), 'value')
    return len(kinds) == 2


# ----------------------------------------------------------------- linearizability
atomic_ops = st.one_of(
    op('in', st.sampled_from('+-*&|^'), st.integers(-2, 5)),
    op('in', st.sampled_from(['+', '-', '//', '<<', '>>']), st.integers(1, 2)),
    op('un', st.sampled_from(['int', 'bool', 'neg', 'abs', 'str'])),
    op('bin', st.sampled_from(['+', '<', '>=', '==', '*']), st.integers(-2, 5)),
    op('until', st.integers(-2, 6), st.sampled_from([0, 0.5, 2])))


def atomic_step(v, o, res):
    if o[0] == 'in':
        if res[0] != 'ok':
            return None
        return (INPLACE[o[1]](v, o[2]),)
    if o[0] == 'un':
        return (v,) if res == ('ok', UN[o[1]](v)) else None
    if o[0] == 'bin':
        return (v,) if res == ('ok', BIN[o[1]](v, o[2])) else None
    if res == ('ok', None):
        return (v,) if v == o[1] else None
    if res == ('exc', 'WouldWaitMore'):
        return (v,) if v != o[1] else None
    return None


def two_plus(history):
    """Did at least two operations of different threads overlap?"""
    h = sorted(history)
    return any(h[i + 1][0] < h[i][1] for i in range(len(h) - 1))


@prop.facet(st.tuples(st.integers(-1, 3), st.lists(st.lists(atomic_ops, min_size=1, max_size=5), min_size=2, max_size=3),
                      S.schedules(), traces), 'at least two operations overlapped', quick=1200, thorough=30000)
def atomic_number(case):
    v, threads, schedule, trace = case
    a = AtomicNumber(v)

    def do(o):
        if o[0] == 'in':
            INPLACE[o[1]](a, o[2])
            return None
        if o[0] == 'un':
            return UN[o[1]](a)
        if o[0] == 'bin':
            return BIN[o[1]](a, o[2])
        return a.wait_until_equal(o[1], o[2])

    history, sch = run_threads(threads, schedule, trace, do)
    history.append((10 ** 9, 10 ** 9 + 1, ('un', 'int'), ('ok', int(a))))
    lin(history, v, atomic_step, 'atomic number')
    return two_plus(history)


@prop.facet(st.tuples(st.lists(st.lists(st.integers(1, 4), min_size=1, max_size=4), min_size=1, max_size=2),
                      st.integers(1, 2), S.schedules(), traces, st.booleans()),
            'a waiter was waiting when the value changed', quick=500, thorough=10000)
def wait_for_total(case):
    """Threads adding up, while others wait until the total is reached: nobody may sleep through it"""
    threads, waiters, schedule, trace, timed = case
    total = sum(map(sum, threads))
    a = AtomicNumber(0)
    waited = []

    def adder(xs):
        def f():
            for x in xs:
                operator.iadd(a, x)
        return f

    def waiter():
        waited.append(int(a) != total)
        if timed:
            a.wait_until_equal(total, 10 ** 6)
        else:
            a.wait_until_equal(total)
        eq(int(a), total, 'the value after waiting for it')

    sch = S.Scheduler(schedule, trace, free_time=not timed)
    sch.run(*([adder(x) for x in threads] + [waiter] * waiters))
    check(not timed or sch.now < 2000, 'a wakeup was lost, as %s seconds were spent waiting', sch.now - 1000)
    return any(waited)


@prop.facet(st.tuples(st.integers(1, 4), st.integers(1, 4), S.schedules(), traces, st.booleans()),
            'an increment overlapped the operation', quick=400, thorough=8000)
def two_atomic_numbers(case):
    """a op= b, b op= a and a op= a, all at once"""
    n, m, schedule, trace, selfish = case
    a, b = AtomicNumber(0), AtomicNumber(0)
    state = {'begun': 0, 'done': 0}
    overlap = []

    def left():
        for i in range(n):
            done, before = state['done'], int(a)
            operator.iadd(a, b)
            diff = int(a) - before
            check(done <= diff <= state['begun'], 'an operand had never such value: %s not within %s..%s', diff,
                  done, state['begun'])
            overlap.append(done != state['begun'])

    def right():
        for i in range(m):
            state['begun'] += 1
            operator.iadd(b, 1)
            state['done'] += 1
            check((b == b) and not (b != b) and b >= b, 'a number is equal to itself')
            b == a
            a < b
            if selfish:
                operator.iadd(b, AtomicNumber(0))

    S.Scheduler(schedule, trace).run(left, right)
    eq(int(b), m, 'final value')
    return any(overlap)


# ----------------------------------------------------------------- queue
queue_ops = st.one_of(op('put'), op('put_many', st.integers(0, 3)),
                      op('get', st.sampled_from([None, 0, 1, 5])), op('peek', st.sampled_from([None, 0, 1, 5])),
                      op('get', st.none()))


@prop.facet(st.tuples(st.lists(st.lists(queue_ops, min_size=1, max_size=5), min_size=2, max_size=3), S.schedules(), traces),
            'a get overlapped another operation', quick=1200, thorough=30000)
def peekable_queue(case):
    threads, schedule, trace = case
    # name the items
    n = 0
    prog = []
    for t in threads:
        p = []
        for o in t:
            if o[0] == 'put':
                o = ('put', (n,))
                n += 1
            elif o[0] == 'put_many':
                o = ('put_many', tuple(range(n, n + o[1])))
                n += len(o[1])
            p.append(o)
        prog.append(p)
    gets = sum(o[0] == 'get' for p in prog for o in p)
    # make sure nobody is entitled to wait forever
    prog.append([('put', (i,)) for i in range(n, n + gets + 1)])
    n += gets + 1
    q = PeekableQueue()
    # some of the items are false
    false = {0: None, 1: '', 2: (), 4: False}
    names = {repr(v): i for i, v in false.items()}
    enc = lambda i: false.get(i, i)
    dec = lambda v: v if type(v) is int else names[repr(v)]

    def do(o):
        if o[0] == 'put':
            return q.put(enc(o[1][0]))
        if o[0] == 'put_many':
            return q.put_many([enc(i) for i in o[1]])
        if o[0] == 'get':
            return dec(q.get(o[1]))
        return dec(q.peek(o[1]))

    def step(state, o, res):
        if o[0] in ('put', 'put_many'):
            return (state + o[1],) if res[0] == 'ok' else None
        if res[0] == 'ok':
            if not state or state[0] != res[1]:
                return None
            return (state[1:] if o[0] == 'get' else state,)
        if o[1] is None or res[1] not in ('Empty', 'WouldWaitMore'):
            return None
        return None if state else (state,)

    history, sch = run_threads(prog, schedule, trace, do)
    left = []
    while q.qsize():
        left.append(dec(q.get()))
    for i, x in enumerate(left):
        history.append((10 ** 9 + 2 * i, 10 ** 9 + 2 * i + 1, ('get', None), ('ok', x)))
    got = [h[3][1] for h in history if h[2][0] == 'get' and h[3][0] == 'ok']
    eq(sorted(got), list(range(n)), 'items taken')
    lin(history, (), step, 'queue')
    return two_plus(history)


# ----------------------------------------------------------------- allocators
alloc_ops = st.one_of(op('alloc'), op('alloc'), op('free', st.integers(-1, 14)), op('mark', st.integers(-1, 16)))


def alloc_step(start, top):
    def step(state, o, res):
        if o[0] == 'alloc':
            if res[0] == 'ok':
                x = res[1]
                if x in state or x < start or (top is not None and x >= top):
                    return None
                return (state | {x},)
            if res[1] != 'Empty' or top is None:
                return None
            return (state,) if len(state) == max(top - start, 0) else None
        x = o[1]
        if o[0] == 'free':
            if x in state:
                return (state - {x},) if res == ('ok', None) else None
            return (state,) if res == ('exc', 'ValueError') else None
        if x < start or (top is not None and x >= top):
            return (state,) if res == ('exc', 'ValueError') else None
        if x in state:
            return (state,) if res == ('exc', 'AlreadyAllocated') else None
        return (state | {x},) if res == ('ok', None) else None

    return step


@prop.facet(st.tuples(st.integers(0, 5), st.one_of(st.none(), st.integers(0, 14)), st.frozensets(st.integers(0, 6), max_size=4),
                      st.lists(st.lists(st.one_of(alloc_ops, op('free', st.integers(0, 4)), op('mark', st.integers(0, 4))), min_size=1, max_size=6), min_size=1, max_size=3), S.schedules(), traces),
            'at least 3 operations of at least 2 threads succeeded', quick=1500, thorough=30000)
def id_allocator(case):
    start, top, init, threads, schedule, trace = case
    init = {x for x in init if start <= x < (99 if top is None else top)}
    a = IDAllocator(start, top)
    for x in init:
        a.mark_as_allocated(x)

    def do(o):
        if o[0] == 'alloc':
            return a.allocate_int()
        if o[0] == 'free':
            return a.mark_as_free(o[1])
        return a.mark_as_allocated(o[1])

    history, sch = run_threads(threads, schedule, trace, do)
    lin(history, frozenset(init), alloc_step(start, top), 'allocator')
    return len(threads) > 1 and sum(h[3][0] == 'ok' for h in history) >= 3


@prop.facet(st.tuples(st.integers(0, 3), st.lists(st.sampled_from(['alloc', 'alloc', 'alloc', 'free', 'mark']),
                                                  min_size=10, max_size=60), st.lists(st.integers(0, 40), min_size=60, max_size=60),
                      st.one_of(st.none(), st.integers(0, 30), st.integers(12, 30))), 'over 6 allocated at once', quick=600)
def allocator_history(case):
    """Longer histories of a single thread, so that many are allocated and everything gets reused"""
    start, ops, picks, top = case
    top = None if top is None else start + top
    a = IDAllocator(start_at=start, top_limit=top)
    step = alloc_step(start, top)
    state = frozenset()
    most = 0
    for o, pick in zip(ops, picks):
        if o == 'alloc':
            o = ('alloc',)
            f = a.allocate_int
        elif o == 'free':
            x = sorted(state)[pick % len(state)] if state else pick
            o = ('free', x)
            f = lambda: a.mark_as_free(x)
        else:
            o = ('mark', pick)
            f = lambda: a.mark_as_allocated(pick)
        try:
            r = 'ok', f()
        except (Empty, AlreadyAllocated, ValueError) as e:
            r = 'exc', [k for k in ('Empty', 'AlreadyAllocated', 'ValueError') if k == type(e).__name__][0]
        new = step(state, o, r)
        check(new is not None, '%r gave %r with %r allocated (%s-%s)', o, r, sorted(state), start, top)
        state = new[0]
        most = max(most, len(state))
    return most > 6


@prop.facet(st.tuples(st.integers(-3, 3), st.lists(st.lists(st.one_of(st.just('issue'), st.integers(-4, 20)), min_size=1, max_size=5),
                                                   min_size=1, max_size=3), S.schedules(), traces),
            'two threads issuing', quick=600, thorough=12000)
def sequential_issuer(case):
    start, threads, schedule, trace = case
    a = SequentialIssuer(start)

    def do(o):
        return a.issue() if o == 'issue' else a.no_less_than(o)

    def step(state, o, res):
        w = state if o == 'issue' else max(state, o)
        return (w + 1,) if res == ('ok', w) else None

    history, sch = run_threads(threads, schedule, trace, do)
    lin(history, start, step, 'sequential issuer')
    got = [h[3][1] for h in history]
    eq(len(set(got)), len(got), 'distinct identifiers')
    return len(threads) > 1 and two_plus(history)


@prop.facet(st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=3), st.lists(st.sampled_from([None, 0, 1]), min_size=1, max_size=3),
                      S.schedules(), traces), 'more than one setter', quick=500, thorough=10000)
def deferred_value(case):
    setters, getters, schedule, trace = case
    d = DeferredValue()
    values = [None, 0, '', 'x']

    def do(o):
        if o[0] == 'set':
            return d.set_value(values[o[1]])
        if o[0] == 'result':
            return d.result(timeout=o[1])
        return d.value(o[1])

    def step(state, o, res):
        if o[0] == 'set':
            if state:
                return (state,) if res == ('exc', 'ValueError') else None
            return ((o[1],),) if res == ('ok', None) else None
        if res[0] == 'ok':
            return (state,) if state and values[state[0]] == res[1] and type(res[1]) is type(values[state[0]]) else None
        if o[1] is None or res[1] != 'WouldWaitMore':
            return None
        return (state,) if not state else None

    threads = [[('set', x)] for x in setters] + [[('value', x), ('result', x), ('value', None)] for x in getters]
    history, sch = run_threads(threads, schedule, trace, do)
    lin(history, (), step, 'deferred value')
    eq(sum(h[3][0] == 'ok' for h in history if h[2][0] == 'set'), 1, 'setters that succeeded')
    return len(setters) > 1


@prop.facet(st.tuples(st.frozensets(st.integers(0, 3), max_size=2), st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=4), min_size=2, max_size=3),
                      S.schedules(), traces), 'two threads inserted the same', quick=500, thorough=10000)
def monitor_set(case):
    init, threads, schedule, trace = case
    s = MonitorSet(init)

    def step(state, o, res):
        if o in state:
            return (state,) if res == ('ok', False) else None
        return (state | {o},) if res == ('ok', True) else None

    history, sch = run_threads(threads, schedule, trace, s.insert_and_check)
    lin(history, init, step, 'set')
    eq(set(s), set(init).union(*threads), 'content')
    return len(set(threads[0]) & set(threads[1]) - init) > 0


# ----------------------------------------------------------------- who wakes up, and when
waiter = st.tuples(st.integers(0, 6), st.one_of(st.none(), st.integers(0, 8)))
mutator = st.tuples(st.integers(0, 9), st.integers(1, 3), st.sampled_from(sorted(INPLACE)))


def alteration(v, o):
    """An in-place operation that surely changes v"""
    for x in (2, 3, 1):
        try:
            w = INPLACE[o](v, x)
        except TypeError:
            break
        if w != v and abs(w) < 2 ** 40:
            return o, x, w
    return '+', 3, v + 3



@prop.facet(st.tuples(st.sampled_from(['wait', 'nothrow', 'until', 'condition', 'notify', 'queue', 'peek', 'deferred', 'strings']),
                      st.lists(waiter, min_size=1, max_size=3),
                      st.lists(mutator, min_size=1, max_size=3, unique_by=lambda x: x[0]), S.schedules(15)),
            'somebody was woken up', quick=1000, thorough=20000)
def wakeups(case):
    """Everybody acts at a moment known in advance, so it's known who should be woken up and when"""
    kind, waiters, mutators, schedule = case
    import time
    mutators = sorted(mutators)
    if kind in ('wait', 'nothrow', 'condition', 'notify', 'strings'):
        # no time at all might not suffice to lock the condition
        waiters = [(s, 1 if t == 0 else t) for s, t in waiters]
    results = {}
    sch = S.Scheduler(schedule, True, free_time=False)
    a = AtomicNumber(64)
    cond = Condition()
    queue = PeekableQueue()
    deferred = DeferredValue()
    # how would that end
    expected = {}
    totals = []
    alterations = {}
    for at, k, o in mutators:
        alterations[at] = o, x, w = alteration(totals[-1][1] if totals else 64, o)
        totals.append((at + 0.5, w))
    if kind == 'until' and totals[-1][1] in [64] + [w for _, w in totals[:-1]]:
        return False
    if kind in ('queue', 'notify'):
        pending = [[i, w[0], w[0] + w[1] if w[1] is not None else 99] for i, w in enumerate(waiters)]

    def wait_expectation(start, end, cond_at_start, occurs):
        """earliest moment of being woken up"""
        if cond_at_start(start):
            return ('ok', start)
        for t in occurs:
            if t > start:
                if t < end:
                    return ('ok', t)
                break
        return ('timeout', end)

    for i, (start, timeout) in enumerate(waiters):
        end = 99 if timeout is None else start + timeout
        if kind in ('wait', 'nothrow', 'condition', 'strings'):
            e = wait_expectation(start, end, lambda s: False, [t for t, _ in totals] + [50])
        elif kind == 'until':
            e = wait_expectation(start, end, lambda s: totals[-1][0] < s, [totals[-1][0]])
        elif kind in ('peek', 'deferred'):
            e = wait_expectation(start, end, lambda s: totals[0][0] < s, [totals[0][0]])
        else:
            e = None
        if e is not None and kind == 'nothrow' and e[0] == 'timeout':
            e = ('ok', e[1])
        expected[i] = e

    def waiter_(i, start, timeout):
        def f():
            time.sleep(start)
            t = timeout
            if kind == 'strings' and t is not None:
                t = '%ds' % t
            try:
                if kind == 'wait':
                    a.wait(t)
                elif kind == 'nothrow':
                    a.wait(timeout=t, throw_exception=False)
                elif kind == 'until':
                    a.wait_until_equal(totals[-1][1], t)
                elif kind in ('condition', 'notify', 'strings'):
                    cond.wait(t)
                elif kind == 'queue':
                    queue.get(t)
                elif kind == 'peek':
                    queue.peek(timeout=t)
                else:
                    deferred.value(t)
                results[i] = ('ok', round(sch.now - 1000, 2))
            except (WouldWaitMore, Empty):
                results[i] = ('timeout', round(sch.now - 1000, 2))
        return f

    def mutate(at, k, o):
        def f():
            time.sleep(at + 0.5)
            if kind in ('wait', 'nothrow', 'until'):
                o, x, w = alterations[at]
                INPLACE[o](a, x)
                eq(a.value, w, 'value')
            elif kind in ('condition', 'strings'):
                cond.notify_all() if k < 3 else cond.notifyAll()
            elif kind == 'notify':
                cond.notify(k)
            elif kind == 'queue':
                if k == 1:
                    queue.put(1)
                else:
                    queue.put_many([1] * k)
            elif kind == 'peek':
                queue.put_many(range(k))
            else:
                try:
                    deferred.set_value(k)
                except ValueError:
                    pass
        return f

    def flush():
        # nobody waits forever
        time.sleep(50)
        operator.iadd(a, 1)
        cond.notify_all()
        queue.put_many([1] * 5)

    sch.run(*([waiter_(i, *w) for i, w in enumerate(waiters)] + [mutate(*m) for m in mutators] + [flush]))
    woken = 0
    if kind in ('queue', 'notify'):
        # it's not specified who of the waiting is woken up, but the amount is
        events = sorted([(s, 0, i) for i, s, e in pending] + [(e, 2, i) for i, s, e in pending] +
                        [(t + 0.5, 1, k) for t, k, _ in mutators])
        waiting, avail, oks = set(), 0, {}
        for t, what, x in events:
            if what == 0:
                if kind == 'queue' and avail:
                    avail -= 1
                    oks[t] = oks.get(t, 0) + 1
                else:
                    waiting.add(x)
            elif what == 1:
                n = min(x, len(waiting))
                if n < len(waiting):
                    return False    # it's undetermined who is woken up, so who'd timeout later on
                oks[t] = oks.get(t, 0) + n
                waiting.clear()
                avail += x - n
            elif x in waiting and t < 99:
                waiting.remove(x)
        got = {}
        for r in results.values():
            if r[0] == 'ok' and r[1] < 50:
                got[r[1]] = got.get(r[1], 0) + 1
        eq(got, {k: v for k, v in oks.items() if v}, 'amount of waiters woken up, by time')
        return bool(got)
    for i, e in expected.items():
        if e[1] >= 50:
            e = ('ok', 50)
        got = results[i]
        check(got[0] == e[0] and abs(got[1] - e[1]) < 0.01, 'waiter %s of %r: got %r, should be %r', i, kind, got, e)
        woken += e[0] == 'ok'
    return woken > 0


# ----------------------------------------------------------------- named queues
names = st.sampled_from('ab')


@prop.facet(st.tuples(st.lists(st.lists(st.one_of(op('put', names), op('put', names), op('get', names), op('any'), op('any'), op('size'),
                                                  op('take', names)), min_size=1, max_size=4), min_size=2, max_size=3), S.schedules(), traces),
            'two threads used the same queue, or all of them', quick=500, thorough=12000)
def named_queues(case):
    threads, schedule, trace = case
    sq = Subqueue()
    rec = S.Recorder()
    # name the items
    threads = [[o + ((i, j),) if o[0] == 'put' else o for j, o in enumerate(t)] for i, t in enumerate(threads)]

    def do(o):
        if o[0] == 'put':
            return sq.put(o[1], o[2])
        if o[0] == 'get':
            return sq.get(o[1], block=False)
        if o[0] == 'take':
            return sq.get(o[1], timeout=1)
        return sq.get_any() if o[0] == 'any' else sq.qsize()

    def body(ops):
        def f():
            for o in ops:
                rec.do(o, lambda: do(o))

        return f

    S.Scheduler(schedule, trace).run(*map(body, threads))
    for (_, _, o, res) in rec.history:
        check(res[0] == 'ok' or res[1] == 'Empty' and o[0] in ('get', 'any', 'take'), '%s failed with %s', o, res[1])

    def overlapped(x):
        return any(y is not x and y[0] < x[1] and x[0] < y[1] for y in rec.history)
    # those which look into several queues see each of them at a different moment
    history = [x for x in rec.history if not (overlapped(x) and (x[2][0] == 'size' or x[2][0] == 'any' and x[3][0] == 'exc'))]
    S.Scheduler().run(body([('any',)] * (sum(map(len, threads)) + 1)))
    history += [x for x in rec.history if x not in history and not overlapped(x) and x[2][0] == 'any']
    history.sort()

    def step(state, o, result):
        d = dict(state)
        if o[0] == 'put':
            d[o[1]] = d.get(o[1], ()) + (o[2],)
        elif o[0] == 'size':
            return (state,) if result[1] == sum(map(len, d.values())) else None
        elif result[0] == 'exc':
            return None if (d.get(o[1]) if o[0] in ('get', 'take') else any(d.values())) else (state,)
        else:
            name, v = result[1] if o[0] == 'any' else (o[1], result[1])
            if not d.get(name) or d[name][0] != v:
                return None
            d[name] = d[name][1:]
        return (tuple(sorted(d.items())),)

    lin(history, (), step, 'collection of queues')
    used = [{o[1] for o in t if len(o) > 1} for t in threads]
    return any(a & b for i, a in enumerate(used) for b in used[:i])


# ----------------------------------------------------------------- one operation in the middle of another
NUMBER_OPS = st.one_of(st.tuples(st.just('in'), st.sampled_from(sorted(INPLACE)), st.sampled_from([1, 2, 3])),
                       st.tuples(st.just('bin'), st.sampled_from(sorted(BIN)), st.sampled_from([1, 2, 3])),
                       st.tuples(st.just('un'), st.sampled_from(sorted(UN))), st.tuples(st.just('until'), st.integers(2, 6)))
MIDDLE = {
    'number': NUMBER_OPS,
    'queue': st.one_of(st.just(('put', ('a',))), st.just(('put_many', ('b', 'c'))), st.tuples(st.sampled_from(['get', 'peek']), st.sampled_from([0, 1]))),
    'issuer': st.one_of(st.just(('issue',)), st.tuples(st.just('no_less'), st.integers(0, 6))),
    'set': st.tuples(st.just('insert'), st.integers(0, 2)),
    'allocator': st.one_of(st.just(('alloc',)), st.tuples(st.sampled_from(['free', 'mark']), st.integers(0, 12))),
    'deferred': st.one_of(st.tuples(st.just('set'), st.sampled_from([None, 0, 'x'])), st.just(('value', 0)), st.just(('value', 1))),
}
PERFORM = {
    ('number', 'in'): lambda x, o: (INPLACE[o[1]](x, o[2]), None)[1], ('number', 'bin'): lambda x, o: BIN[o[1]](x, o[2]),
    ('number', 'un'): lambda x, o: UN[o[1]](x), ('number', 'until'): lambda x, o: x.wait_until_equal(o[1], 1),
    ('queue', 'put'): lambda x, o: x.put(o[1][0]), ('queue', 'put_many'): lambda x, o: x.put_many(o[1]),
    ('queue', 'get'): lambda x, o: x.get(o[1]), ('queue', 'peek'): lambda x, o: x.peek(o[1]),
    ('issuer', 'issue'): lambda x, o: x.issue(), ('issuer', 'no_less'): lambda x, o: x.no_less_than(o[1]),
    ('set', 'insert'): lambda x, o: x.insert_and_check(o[1]),
    ('allocator', 'alloc'): lambda x, o: x.allocate_int(), ('allocator', 'free'): lambda x, o: x.mark_as_free(o[1]),
    ('allocator', 'mark'): lambda x, o: x.mark_as_allocated(o[1]),
    ('deferred', 'set'): lambda x, o: x.set_value(o[1]), ('deferred', 'value'): lambda x, o: x.value(o[1]),
}


def drained(q):
    out = []
    while q.qsize():
        out.append(q.get(0))
    return out


def allocated(a):
    """What numbers below 12 are taken"""
    out = []
    for i in range(12):
        try:
            a.mark_as_allocated(i)
        except AlreadyAllocated:
            out.append(i)
    return out


@st.composite
def middles(draw):
    kind = draw(st.sampled_from(sorted(MIDDLE)))
    return (kind, draw(st.integers(0, 3)), draw(MIDDLE[kind]), draw(MIDDLE[kind]), draw(st.one_of(st.none(), st.integers(0, 12))),
            draw(st.booleans()), draw(st.integers(0, 9)))


@prop.facet(middles(), 'both of the operations alter it', quick=400, thorough=12000)
def pairs(case):
    """At whatever step of an operation another one comes, they come out as if they were done one after another"""
    kind, size, op_a, op_b, second, fine, phase = case

    def make():
        if kind == 'number':
            return AtomicNumber(size)
        if kind == 'queue':
            q = PeekableQueue()
            for i in range(size):
                q.put(i)
            return q
        if kind == 'issuer':
            return SequentialIssuer(size)
        if kind == 'set':
            return MonitorSet(range(size))
        if kind == 'allocator':
            a = IDAllocator(0, None if size == 3 else 12)
            for i in range([0, 9, 11, 10][size]):
                a.mark_as_allocated(i)
            return a
        d = DeferredValue()
        if size > 2:
            d.set_value('before')
        return d

    def see(x):
        try:
            return {'number': lambda: (int(x), type(x.value)), 'queue': lambda: drained(x), 'issuer': x.issue if kind == 'issuer' else None, 'set': lambda: sorted(x),
                    'allocator': lambda: allocated(x), 'deferred': lambda: x.value(0)}[kind]()
        except (WouldWaitMore, Empty) as e:
            return type(e)

    def accept(got, allowed):
        if kind != 'allocator':
            return False
        # which of the free ones is given is up to it
        step = alloc_step(0, None if size == 3 else 12)
        names = lambda res: res if res[0] == 'ok' else ('exc', res[1].__name__)
        for first, second in ((0, 1), (1, 0)):
            state = frozenset(range([0, 9, 11, 10][size]))
            for i in (first, second):
                state = step(state, (op_a, op_b)[i], names(got[i]))
                if state is None:
                    break
                state = state[0]
            else:
                if sorted(i for i in state if i < 12) == got[2]:
                    return True
        return False

    S.atomic_pair(make, lambda x: PERFORM[kind, op_a[0]](x, op_a), lambda x: PERFORM[kind, op_b[0]](x, op_b), see, second, fine, phase, 30, accept)
    return all(o[0] in ('in', 'put', 'put_many', 'get', 'issue', 'no_less', 'insert', 'alloc', 'free', 'mark', 'set') for o in (op_a, op_b))
