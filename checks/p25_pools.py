"""P25: connection pools hand out each connection to one user at a time and tear all of them down exactly once"""
import sched as S       # before satella

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation
from gen import op

from satella.coding.resources import CPManager

prop = Property('P25', ['threads are switched by the harness, at most 3 threads of 6 operations each'])
traces = st.sampled_from([True, True, True, False])


class Boom(Exception):
    pass


class Conn:
    def __init__(self, n):
        self.n = n
        self.holder = None
        self.taken = 0
        self.failed = False
        self.dead = False
        self.tearing = False

    def __bool__(self):
        return self.n % 3 != 0          # it's no matter whether they are true

    def __repr__(self):
        return 'connection %d' % self.n


class Pool(CPManager):
    def __init__(self, size, cycles, points, failing, revive=False):
        super().__init__(size, cycles)
        self.made = []
        self.points = points
        self.failing = set(failing)
        self.attempts = 0
        self.revive = revive

    def pause(self):
        for _ in range(self.points):
            if S.current is not None and S.current.me() is not None:
                S.current.point()

    def create_connection(self):
        self.attempts += 1
        n = self.attempts
        self.pause()
        if n in self.failing:
            raise Boom(n)
        gone = [c for c in self.made if c.dead] if self.revive else []
        if gone:        # as if a new connection was allocated where the former one was
            c, = gone[:1]
            Conn.__init__(c, n)
            return c
        c = Conn(n)
        self.made.append(c)
        return c

    def teardown_connection(self, c):
        check(c.holder is None, '%r torn down when used by %s', c, c.holder)
        check(not c.tearing, '%r torn down twice', c)
        c.tearing = True
        self.pause()
        c.dead = True

    def idle(self):
        return [c for c in self.made if c.holder is None and not c.tearing]


def acquire(pool, me, cycles):
    c = pool.acquire_connection()
    check(isinstance(c, Conn), 'got %r', c)
    check(c.holder is None, '%r given to %s, though used by %s', c, me, c.holder)
    check(not c.tearing, '%r given to %s after it was torn down', c, me)
    check(not c.failed, '%r given to %s after it has failed', c, me)
    c.holder = me
    c.taken += 1
    check(c.taken <= cycles, '%r taken %s times, out of %s', c, c.taken, cycles)
    return c


def release(pool, c, gone=None):
    c.holder = None
    pool.release_connection(c)


one = st.one_of(st.sampled_from([('get',), ('get',), ('get',), ('put', 0), ('put', 0), ('put', 1), ('fail', 0), ('fail', 1), ('invalidate',)]),
                st.tuples(st.just('wait'), st.integers(0, 3)))
pairs = st.lists(st.one_of(one.map(lambda o: [o]), st.just([('get',), ('put', 0)]), st.just([('get',), ('wait', 1), ('put', 0)])), min_size=1, max_size=4).map(lambda l: sum(l, []))
threads_s = st.lists(pairs, min_size=1, max_size=3)
last = st.sampled_from([('close',), ('none',)])


@prop.facet(st.tuples(threads_s, st.integers(1, 3), st.integers(1, 5), st.integers(0, 2), st.lists(st.integers(1, 5), max_size=1), st.booleans(), S.schedules(), traces, st.integers(0, 2)),
            'connections were reused', quick=1500, thorough=20000)
def pooling(case):
    threads, size, cycles, points, failing, closing, schedule, trace, when = case
    pool = Pool(size, cycles, points, failing)
    closed = [False]
    reused = [False]

    def body(me, prog):
        def f():
            held = []
            for o in prog:
                if o[0] == 'get':
                    was_closed = closed[0]
                    try:
                        held.append(acquire(pool, me, cycles))
                    except Boom:
                        continue
                    except RuntimeError:
                        check(closing and pool.terminating, 'refused, though not closed')
                        continue
                    check(not was_closed, 'a connection was given by a closed pool')
                    reused[0] |= held[-1].taken > 1
                elif o[0] in ('put', 'fail') and held:
                    c = held.pop(o[1] % len(held))
                    if o[0] == 'fail':
                        c.failed = True
                        pool.fail_connection(c)
                    spent = c.failed or c.taken >= cycles or closed[0]
                    release(pool, c)
                    if spent:
                        check(c.dead, '%r remained after being released, though it was spent', c)
                elif o[0] == 'invalidate':
                    idle = pool.idle() if len(threads) == 1 else []
                    pool.invalidate()
                    check(all(c.tearing for c in idle), 'idle connections remained after invalidate()')
                elif o[0] == 'wait':
                    for _ in range(o[1]):
                        S.current.point()
                if len(threads) == 1:
                    check(len(pool.idle()) <= size, '%s idle connections, out of %s', len(pool.idle()), size)
            for c in held:
                release(pool, c)
        return f

    def closer():
        for _ in range(when * 6):
            S.current.point()
        pool.close()
        closed[0] = True
        raises(RuntimeError, pool.acquire_connection)
    S.Scheduler(schedule, trace).run(*([body('thread %d' % i, p) for i, p in enumerate(threads)] + ([closer] if closing else [])))
    check(all(c.holder is None for c in pool.made), 'harness: everything is released')
    check(len(pool.idle()) <= size, '%s idle connections, out of %s', len(pool.idle()), size)
    pool.close()
    check(all(c.dead for c in pool.made), '%r remained after the pool was closed', [c for c in pool.made if not c.dead])
    pool.close()
    return reused[0]


@prop.facet(st.tuples(st.lists(st.lists(st.integers(0, 6), min_size=1, max_size=3), min_size=1, max_size=3), st.integers(0, 8), st.integers(1, 3), S.schedules(), traces),
            'something was released when closing', quick=1500, thorough=20000)
def closing(case):
    """Connections are being released while the pool is closed"""
    threads, delay, size, schedule, trace = case
    pool = Pool(size, 10, 0, [])
    held = [[acquire(pool, i, 10) for _ in waits] for i, waits in enumerate(threads)]
    out = [sum(map(len, threads))]
    during = []

    def body(waits, mine):
        def f():
            for n, c in zip(waits, mine):
                for _ in range(n):
                    S.current.point()
                release(pool, c)
                out[0] -= 1
        return f

    def closer():
        for _ in range(delay):
            S.current.point()
        during.append(out[0])
        pool.close()
        during.append(out[0])
    S.Scheduler(schedule, trace).run(closer, *[body(w, h) for w, h in zip(threads, held)])
    check(all(c.dead for c in pool.made), '%r remained after the pool was closed', [c for c in pool.made if not c.dead])
    return during[0] != during[1]


calm = st.sampled_from([('get',), ('get',), ('put', 0), ('put', 0), ('put', 1), ('fail', 0), ('invalidate',)])


@prop.facet(st.tuples(st.lists(calm, min_size=4, max_size=30), st.integers(1, 3), st.integers(1, 4), st.booleans()), 'connections were reused', quick=1500)
def alone(case):
    """A single user: idle connections are used prior to making new ones"""
    prog, size, cycles, revive = case
    pool = Pool(size, cycles, 0, [], revive)
    held, reused = [], False
    for o in prog:
        if o[0] == 'get':
            idle, made = pool.idle(), pool.attempts
            c = acquire(pool, 'me', cycles)
            if idle:
                check(c in idle and pool.attempts == made, 'a new connection was made, though there were idle ones')
                reused = True
            else:
                check(pool.attempts == made + 1, 'a connection appeared')
            held.append(c)
        elif o[0] in ('put', 'fail') and held:
            c = held.pop(o[1] % len(held))
            idle = len(pool.idle())
            if o[0] == 'fail':
                c.failed = True
                pool.fail_connection(c)
            release(pool, c)
            eq(c.dead, c.failed or c.taken >= cycles or idle >= size, 'teardown of %r, taken %s of %s times with %s idle of %s' % (c, c.taken, cycles, idle, size))
        elif o[0] == 'invalidate':
            pool.invalidate()
            eq(pool.idle(), [], 'idle after invalidate()')
    for c in held[:1]:
        release(pool, c)
    pool.close()
    raises(RuntimeError, pool.acquire_connection)
    for c in held[1:]:
        release(pool, c)
    check(all(c.dead for c in pool.made), 'connections remained after closing')
    return reused
