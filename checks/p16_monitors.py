"""P16: mutual exclusion and release of monitors and locked structures"""
import sched as S       # before satella
import copy

from hypothesis import strategies as st

from harness import Property, check, eq, Violation, raises
from gen import op, ops

from satella.coding.concurrent import Monitor, RMonitor, MonitorList, MonitorDict, MonitorSet, LockedStructure, LockedDataset
from satella.exceptions import WouldWaitMore, ResourceNotLocked

prop = Property('P16', ['threads are switched by the harness, at any statement of satella, any operation upon '
                        'a lock and several places within every section', 'at most 3 threads of 4 sections each'])
traces = st.sampled_from([True, True, True, False])


class Boom(Exception):
    pass


class Guard:
    """Observes whether sections overlap"""

    def __init__(self):
        self.inside = None
        self.depth = 0
        self.contended = False
        self.wanting = 0
        self.entered = 0

    def section(self, me, points, exc, nested=None):
        check(self.inside in (None, me), 'thread %s entered, though %s is inside', me, self.inside)
        self.entered += 1
        self.contended |= self.wanting > 1
        before, self.inside = self.inside, me
        for _ in range(points):
            S.current.point()
            check(self.inside == me, 'someone has intruded')
        if nested is not None:
            r = nested()
            check(self.inside == me, 'someone has intruded after a nested block')
        else:
            r = None
        self.inside = before
        if exc:
            raise Boom(me)
        return ('result', me, r)


class Mon(Monitor):
    def __init__(self, g):
        Monitor.__init__(self)
        self.g = g

    @Monitor.synchronized
    def sync(self, me, points, exc=False, nested=None):
        """doc"""
        return self.g.section(me, points, exc, nested)


class RMon(RMonitor):
    def __init__(self, g):
        RMonitor.__init__(self)
        self.g = g

    sync = Monitor.synchronized(lambda self, me, points, exc=False, nested=None: self.g.section(me, points, exc, nested))


class Holder:
    def __init__(self, mon):
        self.mon = mon

    @Monitor.synchronize_on_attribute('mon')
    def sync(self, me, points, exc=False, nested=None):
        return self.mon.g.section(me, points, exc, nested)


def enter(kind, mon, me, points, exc, nested):
    if kind == 'method':
        return mon.sync(me, points, exc=exc, nested=nested)
    if kind == 'acquire':
        with Monitor.acquire(mon):
            return mon.g.section(me, points, exc, nested)
    if kind == 'with':
        with mon as m:
            check(m is mon, 'entering a monitor returns it')
            return mon.g.section(me, points, exc, nested)
    if kind == 'on':
        @Monitor.synchronize_on(mon)
        def f(a, points, *, exc, nested):
            return mon.g.section(a, points, exc, nested)

        return f(me, points, exc=exc, nested=nested)
    if kind == 'ron':
        @RMonitor.synchronize_on(mon)
        def f(a, points, *, exc, nested):
            return mon.g.section(a, points, exc, nested)

        return f(me, points, exc=exc, nested=nested)
    if kind == 'attribute':
        return Holder(mon).sync(me, points, exc, nested=nested)
    raise AssertionError(kind)


kinds = st.sampled_from(['method', 'acquire', 'with', 'on', 'ron', 'attribute'])
sections = st.tuples(kinds, st.integers(0, 3), st.booleans(),
                     st.sampled_from([None, None, 'release', 'release-exc', 'reenter', 'reenter2']))


def try_section(g, fun, me, exc):
    g.wanting += 1
    try:
        r = fun()
    except Boom as e:
        check(exc and e.args == (me,), 'unexpected exception %r', e)
        return None
    else:
        check(not exc, 'an exception was swallowed')
        eq(r[:2], ('result', me), 'result of the section')
        return r
    finally:
        g.wanting -= 1


@prop.facet(st.tuples(st.booleans(), st.lists(st.lists(sections, min_size=1, max_size=4), min_size=2, max_size=3),
                      S.schedules(), traces), 'two threads wanted to enter at once', quick=1500, thorough=30000)
def exclusion(case):
    reentrant, threads, schedule, trace = case
    g = Guard()
    mon = RMon(g) if reentrant else Mon(g)

    def body(me, prog):
        def f():
            for kind, points, exc, nest in prog:
                nested = None
                if nest in ('release', 'release-exc'):
                    def nested():
                        try:
                            g.inside = None
                            with Monitor.release(mon):
                                for _ in range(points + 1):
                                    S.current.point()
                                if nest == 'release-exc':
                                    raise Boom('nested')
                        except Boom as e:
                            check(e.args == ('nested',), 'wrong exception')
                        else:
                            check(nest == 'release', 'an exception was swallowed')
                        check(g.inside is None, 'regained a monitor while %s is inside', g.inside)
                        g.inside = me
                        return 'nested'
                elif nest in ('reenter', 'reenter2') and reentrant:
                    def nested():
                        x = try_section(g, lambda: enter('with' if nest == 'reenter' else 'attribute', mon, me, 1, exc,
                                                         None), me, exc)
                        return 'nested'
                r = try_section(g, lambda: enter(kind, mon, me, points, exc, nested), me, exc)
                if r is not None:
                    eq(r[2], 'nested' if nested else None, 'result passed through')
        return f

    S.Scheduler(schedule, trace).run(*[body(i, p) for i, p in enumerate(threads)])
    check(g.inside is None, 'somebody is left inside')
    # it's free afterwards, and it does exclude
    S.Scheduler([], None).run(lambda: enter('method', mon, 9, 1, False, None))
    return g.contended and g.entered >= 2


# ----------------------------------------------------------------- containers
@prop.facet(st.tuples(st.sampled_from(['list', 'dict', 'set', 'structure', 'structure-lock', 'dataset', 'dataset-call']),
                      st.lists(st.lists(st.tuples(st.integers(0, 3), st.booleans()), min_size=1, max_size=4), min_size=2,
                               max_size=3), S.schedules(), traces), 'two threads wanted to enter at once', quick=800,
            thorough=20000)
def container_exclusion(case):
    kind, threads, schedule, trace = case
    g = Guard()

    class DS(LockedDataset):
        def __init__(self):
            super().__init__()
            with self:
                self.n = 0

    sch = S.Scheduler(schedule, trace)
    if kind == 'list':
        x = MonitorList([0])
    elif kind == 'dict':
        x = MonitorDict({0: 0})
    elif kind == 'set':
        x = MonitorSet([0])
    elif kind == 'structure':
        x = LockedStructure({0: 0})
    elif kind == 'structure-lock':
        import threading
        lock = threading.Lock()
        x = LockedStructure([0], lock)
    else:
        class Untouched(LockedDataset):
            n = 0
        u = Untouched()
        raises(ResourceNotLocked, lambda: u.n)
        raises(ResourceNotLocked, setattr, u, 'n', 2)
        x = DS()

    def increase():
        if kind.startswith('dataset'):
            v = x.n
            S.current.point()
            x.n = v + 1
        elif kind == 'set':
            v = max(x)
            S.current.point()
            x.add(v + 1)
        else:
            v = x[0]
            S.current.point()
            x[0] = v + 1

    def body(me, prog):
        def f():
            for points, exc in prog:
                def sec():
                    if kind == 'structure-lock' and me == 0:        # somebody who uses the lock itself
                        with lock:
                            increase()
                            return g.section(me, points, exc)
                    with (x(blocking=True) if kind == 'dataset-call' else x) as y:
                        check(y is x, 'entering returns the same object')
                        increase()
                        return g.section(me, points, exc)

                try_section(g, sec, me, exc)
        return f

    sch.run(*[body(i, p) for i, p in enumerate(threads)])
    total = sum(map(len, threads))
    if kind.startswith('dataset'):
        raises(ResourceNotLocked, lambda: x.n)
        with x:
            eq(x.n, total, 'total')
    elif kind == 'set':
        eq(set(x), set(range(total + 1)), 'content')
    else:
        eq(x[0], total, 'total')
    return g.contended


@prop.facet(st.tuples(st.lists(st.tuples(st.integers(0, 4), st.integers(1, 4), st.sampled_from(['block', 'poll', 'timeout', 'method', 'pollmethod', 'timemethod']),
                                         st.integers(1, 3)), min_size=1, max_size=4), S.schedules(12)),
            'somebody could not lock', quick=800, thorough=10000)
def dataset_timing(case):
    """Lockers start at known times, so it is known who manages to lock before giving up"""
    lockers, schedule = case
    import time
    # distinct start times
    lockers = [(s + 0.1 * i, d + 0.03, k, t + 0.01 * i) for i, (s, d, k, t) in enumerate(lockers)]

    class DS(LockedDataset):
        def __init__(self):
            super().__init__()
            with self:
                self.x = 0

        @LockedDataset.locked()
        def method(self, d):
            return self.go(d)

        @LockedDataset.locked(blocking=False)
        def pollmethod(self, d):
            return self.go(d)

        @LockedDataset.locked(timeout=2)
        def timemethod(self, d):
            return self.go(d)

        def go(self, d):
            self.x = self.x + 1
            time.sleep(d)
            return 'done'

    ds = DS()
    out = {}
    sch = S.Scheduler(schedule, True, free_time=False)

    def locker(i, s, d, k, t):
        def f():
            time.sleep(s)
            try:
                if k == 'block':
                    with ds:
                        ds.go(d)
                elif k == 'poll':
                    with ds(blocking=False):
                        ds.go(d)
                elif k == 'timeout':
                    with ds(timeout=t) as q:
                        check(q is ds, 'entering returns the same object')
                        ds.go(d)
                else:
                    eq(getattr(ds, k)(d), 'done', 'result of the method')
                out[i] = 'ok'
            except WouldWaitMore:
                out[i] = 'fail'
        return f

    sch.run(*[locker(i, *l) for i, l in enumerate(lockers)])
    # simulate: is there an allowed order?
    events = sorted((l[0], i) for i, l in enumerate(lockers))

    def simulate():
        """set of possible outcomes, as we don't know which waiter wins"""
        possible = set()

        def go(free_at, waiting, todo, got):
            # waiting: list of (index, deadline); todo: sorted starts
            cands = []
            nxt = todo[0][0] if todo else None
            if waiting and (nxt is None or free_at <= nxt):
                # lock is freed before anything starts
                alive = [w for w in waiting if w[1] >= free_at]
                dead = [w for w in waiting if w[1] < free_at]
                got = dict(got, **{str(w[0]): 'fail' for w in dead})
                if alive:
                    for w in alive:
                        go(free_at + lockers[w[0]][1], [v for v in alive if v is not w], todo,
                           dict(got, **{str(w[0]): 'ok'}))
                else:
                    go(free_at, [], todo, got)
                return
            if nxt is None:
                possible.add(tuple(sorted(got.items())))
                return
            t, i = todo[0]
            k, to = lockers[i][2], lockers[i][3]
            if free_at <= t:
                go(t + lockers[i][1], waiting, todo[1:], dict(got, **{str(i): 'ok'}))
            elif k in ('poll', 'pollmethod'):
                go(free_at, waiting, todo[1:], dict(got, **{str(i): 'fail'}))
            else:
                dl = {'timeout': t + to, 'timemethod': t + 2}.get(k, 1e9)
                go(free_at, waiting + [(i, dl)], todo[1:], got)

        go(-1, [], events, {})
        return possible

    got = tuple(sorted((str(k), v) for k, v in out.items()))
    check(got in simulate(), 'outcome %r of %r is not possible', got, lockers)
    with ds:
        eq(ds.x, list(out.values()).count('ok'), 'updates')
    for f in (lambda: ds.x, lambda: setattr(ds, 'x', 3), lambda: setattr(ds, 'y', 3)):
        raises(ResourceNotLocked, f)
    with ds:
        eq(ds.x, list(out.values()).count('ok'), 'updates after refused writes')
        raises(AttributeError, lambda: ds.y)
    return 'fail' in out.values()


@prop.facet(st.tuples(st.sampled_from(['list', 'dict']), ops(
    op('set', st.integers(-3, 5), st.integers(0, 9)), op('del', st.integers(-3, 5)), op('append', st.integers(0, 9)),
    op('get', st.integers(-3, 5)), op('in', st.integers(-3, 5)), op('len'), op('iter'), op('slice', st.integers(0, 4)),
    op('copy'), op('deepcopy'), op('pop'), op('eq'), op('setslice', st.integers(0, 3)), op('delslice', st.integers(0, 3)),
    max_size=25)), 'three modifications', quick=800)
def container_contents(case):
    """A monitored list or dict is still a list or a dict"""
    kind, todo = case
    x, m = (MonitorList([1, [2]]), [1, [2]]) if kind == 'list' else (MonitorDict({1: [2], 3: 4}), {1: [2], 3: 4})
    if kind == 'dict':
        eq(dict(MonitorDict({1: 2}, a=3)), {1: 2, 'a': 3}, 'constructor')
    changed = 0

    def both(f):
        def run(y):
            try:
                return ('ok', f(y))
            except Exception as e:
                return ('exc', type(e))

        a, b = run(x), run(m)
        eq(a, b, 'operation %r' % (o,))
        return a[0] == 'ok'

    for o in todo:
        if o[0] == 'set':
            changed += both(lambda y: y.__setitem__(o[1], o[2]))
        elif o[0] == 'del':
            changed += both(lambda y: y.__delitem__(o[1]))
        elif o[0] == 'append':
            if kind == 'list':
                changed += both(lambda y: y.append(o[1]))
            else:
                changed += both(lambda y: y.update({o[1]: 5}))
        elif o[0] == 'get':
            both(lambda y: y[o[1]])
        elif o[0] == 'in':
            both(lambda y: o[1] in y)
        elif o[0] == 'len':
            both(len)
        elif o[0] == 'iter':
            both(list)
        elif o[0] == 'slice' and kind == 'list':
            both(lambda y: list(y[:o[1]]))
        elif o[0] == 'setslice' and kind == 'list':
            both(lambda y: y.__setitem__(slice(o[1], None), [7, [8]]))
        elif o[0] == 'delslice' and kind == 'list':
            both(lambda y: y.__delitem__(slice(o[1])))
        elif o[0] == 'pop' and kind == 'list':
            both(lambda y: y.pop())
        elif o[0] == 'eq':
            both(lambda y: y == m)
        elif o[0] in ('copy', 'deepcopy'):
            c = getattr(copy, o[0])(x)
            check(type(c) is type(x), 'type of a copy')
            check(c == x, 'content of a copy')
            for k in (range(len(m)) if kind == 'list' else m):
                if isinstance(m[k], list):
                    eq(c[k] is x[k], o[0] == 'copy', 'identity of elements of a %s' % o[0])
            if kind == 'list':
                c.append(9)
            else:
                c[99] = 9
            with x:     # a copy is locked independently
                with Monitor.acquire(c):
                    pass
        eq(list(x), list(m), 'content')
        if kind == 'dict':
            eq(dict(x), m, 'content')
    with x:
        pass
    return changed >= 3
