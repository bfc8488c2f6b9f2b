"""
A cooperative scheduler for real threads.

Import it before satella. While a Scheduler is running, locks, conditions, events, queues, sleeping and
time are virtual; exactly one thread runs at a time, and where to switch is decided by the generated
schedule: a list of (gap, pick) pairs - "after gap more points give control to the pick-th candidate".
A point is any operation upon a virtual primitive and (optionally) any statement of satella, and any moment between
computing a value and storing it. The latter is accomplished by an import hook, that inserts calls to the scheduler.
"""
import _thread
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import queue
import sys
import threading
import time
import concurrent.futures.thread as _cft

from harness import Violation, HarnessError

REPO = os.environ.get('VERIF_REPO', '/repo')
SATELLA = os.path.join(REPO, 'satella') + os.sep
_real_monotonic = time.monotonic
_real_time = time.time
_real_sleep = time.sleep
_real_perf = time.perf_counter
_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_join = threading.Thread.join
_real_is_alive = threading.Thread.is_alive
MAX_POINTS = 400000

current = None      # the running Scheduler


def _monotonic():
    s = current
    if s is None:
        return _real_monotonic()
    s.now += 1e-6       # lest a loop waiting for the clock to move would never end
    return s.now


def _time():
    s = current
    return s.now + 1.6e9 if s is not None else _real_time()


def _sleep(dt):
    s = current
    if s is None or s.me() is None:
        return _real_sleep(dt)
    if dt < 0:
        raise ValueError('sleep length must be non-negative')
    s.block(lambda: False, dt)


# default arguments in satella capture these
time.monotonic = _monotonic
time.time = _time
time.sleep = _sleep
time.perf_counter = lambda: current.now if current is not None else _real_perf()
threading._time = _monotonic
queue.time = _monotonic


def _vp(x=None):
    """The call that's inserted into satella"""
    s = current
    if s is not None and s.trace:
        s.point()
    return x


def _vq(x):
    """The same, but in the middle of a statement: taken only by those schedules that ask for it"""
    s = current
    if s is not None and s.fine:
        s.point()
    return x


builtins.__vp__ = _vp
builtins.__vq__ = _vq


class _Fine(ast.NodeTransformer):
    """After each call and after each element of a comprehension, where CPython may switch between threads"""

    def __init__(self):
        self.depth = 0

    def _function(self, node):
        self.depth += 1
        node.body = [self.visit(x) for x in node.body]
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def wrap(self, node):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__vq__', ast.Load()), node), [node], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        return self.wrap(node) if self.depth else node

    def comprehension(self, node):
        self.generic_visit(node)
        if self.depth:
            node.elt = self.wrap(node.elt)
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = comprehension

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if self.depth:
            node.value = self.wrap(node.value)
        return node


class _Instrument(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def call(self, node, *args):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__vp__', ast.Load()), node), list(args), []), node)

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body, True)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def block(self, body, is_function=False):
        out = []
        for i, stmt in enumerate(body):
            if self.depth and not isinstance(stmt, (ast.Global, ast.Nonlocal)) and not (
                    is_function and not i and isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)):
                out.append(ast.copy_location(ast.Expr(self.call(stmt)), stmt))
            out.append(self.visit(stmt))
        return out

    def generic_visit(self, node):
        for name in ('body', 'orelse', 'finalbody'):
            x = getattr(node, name, None)
            if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and self.depth:
                setattr(node, name, self.block(x))
            elif isinstance(x, list):
                setattr(node, name, [self.visit(y) for y in x])
        if isinstance(node, ast.Try) or node.__class__.__name__ == 'TryStar':
            node.handlers = [self.visit(h) for h in node.handlers]
        if self.depth and isinstance(node, (ast.Assign, ast.AugAssign)):
            # so that a switch can occur after the value was computed (for +=, also after the old one was obtained)
            node.value = self.call(node.value, node.value)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = importlib.util.decode_source(f.read())
        tree = _Instrument().visit(_Fine().visit(ast.parse(src, path)))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith('satella.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


for _m in sys.modules:
    if _m.startswith('satella.'):
        raise HarnessError('satella was imported too early')
sys.meta_path.insert(0, _Finder())


class Killed(BaseException):
    pass


class Deadlock(Violation):
    pass


class VLock:
    """
    A replacement for threading.Lock: an ordinary lock, unless the thread using it belongs to a Scheduler
    """
    __slots__ = 'real', '__weakref__'

    def __init__(self):
        self.real = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is None or s.me() is None:
            return self.real.acquire(blocking, timeout)
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        s.point()
        if self.real.acquire(False):
            return True
        if not blocking:
            return False
        if not s.block(lambda: not self.real.locked(), None if timeout == -1 else timeout):
            return False
        if not self.real.acquire(False):
            raise HarnessError('the lock should be free')
        return True

    def release(self):
        self.real.release()
        s = current
        if s is not None and s.me() is not None:
            s.point()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self.real = _real_allocate()


# captured by "from threading import Lock" in the tested code
threading.Lock = threading._allocate_lock = VLock
threading.RLock = threading._PyRLock
queue.SimpleQueue = queue._PySimpleQueue
_cft._global_shutdown_lock = VLock()


class VThread:
    __slots__ = ('fun', 'index', 'go', 'pred', 'deadline', 'done', 'exc', 'result', 'ident', 'timed_out',
                 'daemon', 'name', 'obj')

    def __init__(self, fun, index, daemon=False):
        self.fun = fun
        self.index = index
        self.go = _real_allocate()
        self.go.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.exc = None
        self.result = None
        self.ident = None
        self.timed_out = False
        self.daemon = daemon
        self.obj = None


class Scheduler:
    """
    :param schedule: list of (gap, pick)
    :param trace: whether to switch between statements of satella, or only at operations upon locks etc.
    """

    def __init__(self, schedule=(), trace=True, start=1000.0, max_points=MAX_POINTS, free_time=True):
        self.schedule = list(schedule)
        self.trace = trace
        self.fine = bool(trace and self.schedule and self.schedule[0][1] == 3)
        self.free_time = free_time  # can time pass while there's somebody to run?
        self.now = start
        self.threads = []
        self.by_ident = {}
        self.main_go = _real_allocate()
        self.main_go.acquire()
        self.points = 0
        self.max_points = max_points
        self.pos = 0
        self.gap = self.schedule[0][0] if self.schedule else -1
        self.killing = False
        self.switches = 0
        self.last = None
        self.failure = None

    # ---- called by threads
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def point(self):
        """A place where control might be passed to somebody else"""
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        if self.killing:
            raise Killed()
        self.points += 1
        if self.points > self.max_points:
            self.failure = self.failure or 'no progress: %s points without finishing' % self.points
            self._switch(t)
            return
        if self.gap < 0:
            return
        if self.gap > 0:
            self.gap -= 1
            return
        self._switch(t)

    def block(self, pred, timeout=None):
        """Wait until pred() or until timeout passes. Returns False upon a timeout"""
        t = self.me()
        if self.killing:
            raise Killed()
        t.pred = pred
        t.deadline = None if timeout is None else self.now + timeout
        t.timed_out = False
        self._switch(t)
        return not t.timed_out

    def _switch(self, t):
        self.main_go.release()
        t.go.acquire()
        if self.killing:
            raise Killed()

    # ---- threads
    def spawn(self, fun, daemon=False, obj=None):
        t = VThread(fun, len(self.threads), daemon)
        t.obj = obj
        self.threads.append(t)
        started = _real_allocate()
        started.acquire()

        def body():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            started.release()
            t.go.acquire()
            try:
                if self.killing:
                    return
                t.result = fun()
            except Killed:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                t.done = True
                self.by_ident.pop(t.ident, None)
                self.main_go.release()

        _real_start(body, ())
        started.acquire()
        return t

    # ---- the controlling thread
    def _runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.pred is None or t.pred():
                out.append(t)
            elif t.deadline is not None and t.deadline <= self.now:
                out.append(t)
        return out

    def _advance(self):
        """Let time pass until somebody's deadline"""
        ds = [t.deadline for t in self.threads if not t.done and t.pred is not None and t.deadline is not None
              and t.deadline > self.now]
        if not ds:
            return False
        self.now = min(ds)
        return True

    def _resume(self, t):
        if t.pred is not None:
            if t.pred():
                t.timed_out = False
            elif t.deadline is not None and t.deadline <= self.now:
                t.timed_out = True
            t.pred = None
            t.deadline = None
        if self.last is not t:
            self.switches += 1
        self.last = t
        t.go.release()
        self.main_go.acquire()

    def run(self, *funs, until=None):
        """
        Run until each of funs (or thread spawned that's not a daemon) completes.

        :raises Deadlock: nothing can run any more
        """
        global current
        assert current is None, 'schedulers do not nest'
        current = self
        threading._start_new_thread = self._start_new_thread
        threading.Thread.join = _join
        threading.Thread.is_alive = _is_alive
        logging.disable(logging.CRITICAL)
        try:
            for f in funs:
                self.spawn(f)
            self._loop()
        finally:
            self._kill()
            current = None
            threading._start_new_thread = _real_start
            threading.Thread.join = _real_join
            threading.Thread.is_alive = _real_is_alive
            logging.disable(logging.NOTSET)
        for t in self.threads:
            if t.exc is not None and t.obj is None:
                raise t.exc
        if self.failure:
            raise Violation(self.failure)
        return [t.result for t in self.threads[:len(funs)]]

    def _loop(self):
        while True:
            if self.failure or all(t.done or t.daemon for t in self.threads):
                return
            if any(t.exc is not None and t.obj is None for t in self.threads):
                return
            cands = self._runnable()
            if not cands:
                if not self._advance():
                    raise Deadlock('deadlock: threads %s are blocked forever' % (
                        [t.index for t in self.threads if not t.done],))
                continue
            if self.gap <= 0 and self.pos < len(self.schedule):
                pick = self.schedule[self.pos][1]
                self.pos += 1
                self.gap = self.schedule[self.pos][0] if self.pos < len(self.schedule) else -1
                if isinstance(pick, VThread):
                    self._resume(pick if pick in cands else cands[0])
                    continue
                # there's one extra candidate, the passage of time
                pick %= len(cands) + (1 if self.free_time else 0)
                if pick == len(cands):
                    self._advance()
                    cands = self._runnable()
                    pick = len(cands) - 1
                t = cands[pick]
            elif self.last in cands and self.last.pred is None and self.gap != -1:
                t = self.last
            else:
                # the current thread cannot go on: next one, in order
                i = self.last.index if self.last is not None else -1
                t = next((x for x in cands if x.index > i), cands[0])
            self._resume(t)

    def _kill(self):
        self.killing = True
        for _ in range(1000):
            left = [t for t in self.threads if not t.done]
            if not left:
                return
            for t in left:
                t.go.release()
                self.main_go.acquire()
        raise HarnessError('threads cannot be killed')

    def _start_new_thread(self, function, args, kwargs=None):
        """Replacement for threading._start_new_thread"""
        obj = getattr(function, '__self__', None)
        t = self.spawn(lambda: function(*args, **(kwargs or {})), daemon=getattr(obj, 'daemon', False), obj=obj)
        if obj is not None:
            obj._vthread = t
        return t.ident


def _join(self, timeout=None):
    v = getattr(self, '_vthread', None)
    s = current
    if v is None or s is None or s.me() is None:
        if v is None and not self._started.is_set():
            raise RuntimeError('cannot join thread before it is started')
        if v is not None:
            return
        return _real_join(self, timeout)
    if s.me() is v:
        raise RuntimeError('cannot join current thread')
    s.point()
    if not v.done:
        s.block(lambda: v.done, None if timeout is None else max(timeout, 0))


def _is_alive(self):
    v = getattr(self, '_vthread', None)
    if v is None:
        return False if not self._started.is_set() else _real_is_alive(self)
    return not v.done


def linearizable(history, init, step):
    """
    :param history: list of (invoked, returned, operation, result)
    :param step: step(state, operation, result) -> the next state, or None if that's impossible
    :return: whether there's an order of operations, consistent with real time, explaining results
    """
    n = len(history)
    seen = set()

    def go(done, state):
        if len(done) == n:
            return True
        key = (done, repr(state))
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(n) if i not in done]
        first_return = min(history[i][1] for i in rest)
        for i in rest:
            if history[i][0] > first_return:
                continue
            new = step(state, history[i][2], history[i][3])
            if new is not None and go(done | {i}, new[0]):
                return True
        return False

    return go(frozenset(), init)


def schedules(max_size=25):
    """Strategy for schedules"""
    from hypothesis import strategies as st
    return st.lists(st.tuples(st.one_of(st.integers(0, 4), st.integers(0, 60)), st.integers(0, 3)), max_size=max_size)


def _raced(make, a, b, observe, first, second=None, fine=False, in_turn=False):
    """
    Run a and b upon make(), a being interrupted at its first-th step by b, and b perhaps at its second-th by a

    :param in_turn: don't interrupt anything, do a and then b
    :return: ((outcome of a, outcome of b, what's observed afterwards), was it interrupted, in how many steps was a done if it wasn't)
    """
    from harness import Outcome
    s = Scheduler([], True, free_time=False, max_points=30000)
    s.fine = fine
    res = {}
    ts = []

    def main():
        obj = make()

        def run_a():
            s.pos, s.gap = 0, first
            s.schedule = [] if in_turn else [(first, ts[1])] + ([] if second is None else [(second, ts[0])])
            res['a'] = Outcome.of(a, obj)
            res['interrupted'] = s.pos > 0
            res['steps'] = first - s.gap
            if not s.pos:
                s.schedule, s.gap = [], -1

        def run_b():
            if not in_turn and not s.pos and 'a' not in res:     # the other one waits for something
                s.block(lambda: s.gap == 0 or s.pos > 0 or 'a' in res)
            res['b'] = Outcome.of(b, obj)

        if in_turn:
            run_a()
            run_b()
        else:
            ts[:] = [s.spawn(run_a), s.spawn(run_b)]
            s.block(lambda: all(t.done for t in ts))
        s.schedule, s.gap = [], -1
        res['observed'] = observe(obj)

    s.run(main)
    return (res['a'], res['b'], res['observed']), res['interrupted'], res['steps']


def atomic_pair(make, a, b, observe, second=None, fine=False, phase=0, most=40, accept=None):
    """
    Check that two operations done by two threads come out as if one was done after another, at whatever step of one of
    them does the other one come.

    :param make: callable/0 -> the object
    :param a: callable/1, accepting the object
    :param b: callable/1, accepting the object
    :param observe: callable/1, what is there to be seen afterwards. Is to be comparable
    :param second: at which step of the second one should the first one go on, apart from never
    :param fine: also interrupt it between steps of a statement
    :param phase: if there are more than most steps in a, which of those to try
    :param most: at how many steps of a to interrupt it, at most
    :param accept: callable/2 (outcome, outcomes of doing one after another) -> bool, whether another outcome is alright as
        well. Outcome is a tuple of (outcome of a, of b, what's observed)
    :return: how many places to interrupt a in were there
    """
    a_b, _, steps = _raced(make, a, b, observe, 10 ** 9, None, fine, True)
    b_a, _, steps_b = _raced(make, b, a, observe, 10 ** 9, None, fine, True)
    allowed = [a_b, (b_a[1], b_a[0], b_a[2])]
    tried = 0
    for swapped in (False, True):
        if swapped:
            steps = steps_b
        stride = -(-(steps + 1) // most)
        for n in range(phase % stride, steps + 1, stride):
            for back in {None, second}:
                got, interrupted, _ = _raced(make, b, a, observe, n, back, fine) if swapped else _raced(make, a, b, observe, n, back, fine)
                if swapped:
                    got = got[1], got[0], got[2]
                tried += interrupted
                if got not in allowed and not (accept is not None and accept(got, allowed)):
                    raise Violation('the %s one interrupted at step %s (and the other one at %s), the outcome is %r, while one after another give %r or %r' % (
                        'second' if swapped else 'first', n, back, got, allowed[0], allowed[1]))
    return tried


class Recorder:
    """Records a history of operations"""

    def __init__(self):
        self.clock = 0
        self.history = []

    def do(self, operation, fun):
        self.clock += 1
        began = self.clock
        try:
            res = ('ok', fun())
        except Violation:
            raise
        except Exception as e:
            res = ('exc', type(e).__name__)
        self.clock += 1
        self.history.append((began, self.clock, operation, res))
        return res
