"""P42: tainting - programs upon tainted values compute what plain ones do, and whatever comes out of a tainted value is tainted"""
import sched as S           # before satella
import collections
import copy
import gc
import operator
import threading
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, HarnessError
from gen import op

from satella.debug import TaintedObject, TaintingEnvironment, taint, access_tainted

prop = Property('P42', ['containers are acyclic', 'plain containers and functions of Python itself, given a tainted argument, decide upon the result by themselves'])
warnings.simplefilter('ignore')


class Point:
    """An object with attributes, methods and operators of its own"""
    def __init__(self, x, y):
        self.x = x
        self.y = y

    def __eq__(self, other):
        return vars(self) == vars(other) if isinstance(other, Point) else NotImplemented

    def __matmul__(self, other):
        return self.x * other

    def __rmatmul__(self, other):
        return other + self.x

    def __neg__(self):
        return self.x

    def __call__(self, n=1, *, k=0):
        return [self.x, n, k]

    def total(self, n=0):
        return self.x + n

    def itself(self):
        return self

    def fails(self):
        raise LookupError('failed')

    def __enter__(self):
        self.x = self.x * 2
        return self.y

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.y = exc_type
        return exc_type is KeyError

    __hash__ = None


def untaint(v):
    """A plain value with nothing tainted in it (a copy)"""
    v = access_tainted(v)
    if isinstance(v, list):
        return [untaint(x) for x in v]
    if isinstance(v, tuple):
        return tuple(untaint(x) for x in v)
    if isinstance(v, dict):
        return {untaint(k): untaint(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return type(v)(untaint(x) for x in v)
    if isinstance(v, Point):
        p = Point.__new__(Point)
        p.__dict__.update({k: untaint(x) for k, x in v.__dict__.items()})
        return p
    return v


def verify_inside(x):
    """What's within a tainted container is tainted"""
    inside = x if isinstance(x, list) else (x.values() if isinstance(x, dict) else (vars(x).values() if isinstance(x, Point) else ()))
    for y in inside:
        check(type(y) is TaintedObject, 'what is within a tainted %s is not tainted', type(x))
        verify_inside(access_tainted(y))


def same(got, want):
    if type(got) is not type(want):
        return False
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(map(same, got, want))
    if isinstance(want, dict):
        return len(got) == len(want) and all(same(k1, k2) and same(v1, v2) for (k1, v1), (k2, v2) in zip(got.items(), want.items()))
    if isinstance(want, Point):
        return same(got.__dict__, want.__dict__)
    if callable(want) and not isinstance(want, type):
        return True
    return got == want or (got != got and want != want)


small = st.one_of(st.integers(-3, 9), st.integers(0, 3), st.sampled_from([0.5, 2.0, -1.5]), st.sampled_from(['a', 'ab', '', 'b']), st.booleans(), st.none(), st.sampled_from([b'', b'ab']))
numbers = st.integers(-3, 9)
value = st.recursive(small, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(['a', 'b', 0, 1]), x, max_size=3), st.tuples(x, x), st.tuples(st.just('Point'), x, x)), max_leaves=5)
values = st.one_of(value, value, numbers, st.lists(numbers, max_size=4), st.sets(numbers, max_size=3), st.frozensets(numbers, max_size=2), st.binary(max_size=3).map(bytearray), st.tuples(st.just('Point'), numbers, numbers), st.sampled_from([int, str, Point, collections.OrderedDict]))

BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow, '@': operator.matmul, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}
INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv, '%': operator.imod, '**': operator.ipow, '@': operator.imatmul, '&': operator.iand, '|': operator.ior, '^': operator.ixor, '<<': operator.ilshift, '>>': operator.irshift}
COMPARE = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
UNARY = {'-': operator.neg, '+': operator.pos, '~': operator.invert}
PLAIN = {'len': len, 'bool': bool, 'str': str, 'int': int, 'float': float, 'index': operator.index, 'not': operator.not_, 'hash': hash, 'dir': lambda x: sorted(dir(x))}      # Python itself wants these to be plain
v = st.integers(0, 60)
common = st.sampled_from(['+', '-', '*', '+', '|', '&'])
statement = st.one_of(
    op('binary', st.one_of(common, st.sampled_from(sorted(BINARY))), v, v), op('binary', st.one_of(common, st.sampled_from(sorted(BINARY))), v, v), op('inplace', st.one_of(common, common, st.sampled_from(sorted(INPLACE))), v, v), op('compare', st.sampled_from(sorted(COMPARE)), v, v),
    op('unary', st.sampled_from(sorted(UNARY)), v), op('plain', st.sampled_from(sorted(PLAIN)), v), op('in', v, v), op('getitem', v, v), op('setitem', v, v, v), op('delitem', v, v), op('slice', v, st.integers(-2, 3), st.integers(-2, 3)), op('iterate', v), op('next', v),
    op('getattr', v, st.sampled_from(['x', 'y', 'total', 'z', 'real'])), op('setattr', v, st.sampled_from(['x', 'y', 'z']), v), op('delattr', v, st.sampled_from(['x', 'y', 'z'])), op('method', v, st.sampled_from(['total', 'total', 'itself', 'fails', 'nothing']), v), op('call', v, v),
    op('with', v, st.sampled_from([None, KeyError, ValueError])), op('repr', v), op('alias', v), op('taint', v), op('access', v), op('key', v, v))


def make(x, i):
    """Build a value from its description. Distinct each time"""
    if isinstance(x, tuple) and x and x[0] == 'Point':
        return Point(make(x[1], i), make(x[2], i))
    if isinstance(x, tuple):
        return tuple(make(y, i) for y in x)
    if isinstance(x, list):
        return [make(y, i) for y in x]
    if isinstance(x, dict):
        return {k: make(y, i) for k, y in x.items()}
    return copy.copy(x)


def choose(o, idx, plain, tainted):
    """Look for operands that such an operation is possible for, nearby"""
    n = len(plain)
    for d in range(min(n * n, 30)):
        i, j = (idx[0] + d) % n, (idx[-1] + d // n) % n if len(idx) > 1 else (idx[0] + d) % n
        if (tainted[i] or tainted[j] and o[0] not in ('setitem', 'delitem', 'setattr', 'method', 'call')) and feasible(o, plain[i], plain[j], plain[idx[1]] if len(idx) == 3 else None):
            return [i] + idx[1:-1] + [j]
    return idx


def feasible(o, p, q, w):
    kind = o[0]
    if kind in ('binary', 'inplace'):
        f = (BINARY if kind == 'binary' else INPLACE)[o[1]]
        return not isinstance(p, type) and not huge(o[1], p, q) and attempt(lambda: f(copy.deepcopy(p), copy.deepcopy(q)))[0] == 'ok'
    if kind == 'compare':
        return attempt(COMPARE[o[1]], p, q)[0] == 'ok'
    if kind == 'unary':
        return attempt(UNARY[o[1]], p)[0] == 'ok'
    if kind == 'plain':
        return attempt(PLAIN[o[1]], p)[0] == 'ok'
    if kind == 'in':
        return attempt(operator.contains, q, p)[0] == 'ok'
    if kind in ('getitem', 'delitem'):
        return not isinstance(p, type) and (kind == 'getitem' or isinstance(p, (list, dict))) and attempt(operator.getitem, p, q)[0] == 'ok'
    if kind == 'setitem':
        return isinstance(p, list) and isinstance(w, int) and -len(p) <= w < len(p) or isinstance(p, dict) and attempt(hash, w)[0] == 'ok'
    if kind in ('slice', 'iterate', 'next'):
        return isinstance(p, (list, tuple, str, set, dict) if kind == 'iterate' else (list, tuple, str))
    if kind in ('getattr', 'setattr', 'delattr', 'method', 'call', 'with'):
        return isinstance(p, Point) and (o[2] != 'total' or attempt(lambda: p.x + q)[0] == 'ok')
    return True


class Skip(Exception):
    pass


def attempt(f, *args):
    try:
        return 'ok', f(*args)
    except Skip:
        raise
    except Exception as e:
        return 'raised', type(e)


def huge(name, a, b):
    """Would it take up a lot of memory?"""
    def size(x):
        return abs(x) if isinstance(x, (int, float)) else (len(x) if isinstance(x, (str, bytes, bytearray, list, tuple, dict, set, frozenset)) else 0)
    try:
        return name in ('*', '**', '<<') and max(size(a), size(b)) > 60 or isinstance(a, (str, bytes, bytearray)) and name == '%' or isinstance(b, (str, bytes, bytearray)) and name == '%'
    except OverflowError:
        return True


@prop.facet(st.tuples(st.lists(st.tuples(values, st.sampled_from([True, True, False])), min_size=4, max_size=7), st.lists(statement, min_size=6, max_size=20)), 'five operations or more succeeded upon tainted values', quick=1600, thorough=60000)
def programs(case):
    """Generated programs run upon tainted and plain values side by side: same values and exceptions, taint spreads and only from tainted operands"""
    described, program = case
    gc.freeze()             # so that looking for tainted variables needs not to examine everything else
    try:
        return run_programs(described, program)
    finally:
        gc.unfreeze()


def run_programs(described, program):
    done = 0
    plain = [make(x, 'p') for x, _ in described]
    with TaintingEnvironment() as env:
        real = []
        for x, t in described:
            y = make(x, 'r')
            if t:
                r = taint(y)
                check(type(r) is TaintedObject, 'taint() returned %s', type(r))
                check(taint(r) is r and TaintedObject(r) is r, 'tainted twice')
                check(access_tainted(r) is y, 'another object inside')
                verify_inside(y)
                real.append(r)
            else:
                real.append(y)
                check(access_tainted(y) is y, 'access_tainted altered a plain value')

        def is_tainted(i):
            return type(real[i]) is TaintedObject

        def record(want, got, tainted, what):
            """:param tainted: None - either"""
            nonlocal done
            if want[0] == 'raised' or got[0] == 'raised':
                eq(got, want, what)
                return
            if tainted is not None:
                eq(type(got[1]) is TaintedObject, tainted, '%s gives something tainted' % (what,))
            check(same(untaint(got[1]), untaint(want[1])), '%s: got %r, expected %r', what, untaint(got[1]), want[1])
            plain.append(want[1])
            real.append(got[1])
            done += bool(tainted)

        for o in program:
            n = len(plain)
            kind = o[0]
            idx = [x % n for x in o[1:] if isinstance(x, int) and kind != 'slice'] or [o[1] % n if kind == 'slice' else o[2] % n]
            if o[-1] != 7:
                idx = choose(o, idx, plain, [is_tainted(x) for x in range(n)])
            i, j = idx[0], idx[-1]
            p, r, t = plain[i], real[i], is_tainted(i)
            q, s, u = plain[j], real[j], is_tainted(j)
            if not t and not u and kind not in ('alias', 'taint', 'access'):
                continue
            what = '%r upon %r and %r' % (o[:2], untaint(r), untaint(s))
            if kind in ('binary', 'inplace'):
                if huge(o[1], p, q):
                    continue
                f = (BINARY if kind == 'binary' else INPLACE)[o[1]]
                if kind == 'inplace' and not t and (isinstance(p, (list, bytearray, set, dict)) or o[1] == '@'):
                    continue        # it's up to the plain container
                if isinstance(p, bytearray) or isinstance(q, bytearray):
                    continue        # buffers are beyond a proxy
                if isinstance(p, bytes) or isinstance(q, bytes):
                    continue
                record(attempt(f, p, q), attempt(f, r, s), True, what)
            elif kind == 'compare':
                if isinstance(p, type) or isinstance(q, type):
                    continue
                record(attempt(COMPARE[o[1]], p, q), attempt(COMPARE[o[1]], r, s), True, what)
            elif kind == 'unary':
                record(attempt(UNARY[o[1]], p), attempt(UNARY[o[1]], r), True, what)
            elif kind == 'plain':
                if o[1] in ('str', 'dir', 'hash', 'int', 'float') and not isinstance(p, (int, float, str, bytes, type(None))):
                    continue        # contain repr()s of tainted objects
                record(attempt(PLAIN[o[1]], p), attempt(PLAIN[o[1]], r), False, what)
            elif kind == 'in':
                if u and not isinstance(p, set) or t and not isinstance(q, (bytes, bytearray, str, set, frozenset)):
                    record(attempt(operator.contains, q, p), attempt(operator.contains, s, r), False, what)
            elif kind == 'getitem':
                if isinstance(p, type):
                    continue
                record(attempt(operator.getitem, p, q), attempt(operator.getitem, r, s), True if t else None, what)
            elif kind == 'setitem':
                k = idx[1]
                if not t or isinstance(p, bytearray) or any(contains(x, p) for x in (q, plain[k])):
                    continue
                want = attempt(operator.setitem, p, plain[k], q)
                record(want, attempt(operator.setitem, r, real[k], s), False, what)
                if want[0] == 'ok':
                    check(type(access_tainted(r)[access_tainted(real[k])]) is TaintedObject, 'what was set in a tainted container is not tainted')
            elif kind == 'delitem':
                if t:
                    record(attempt(operator.delitem, p, q), attempt(operator.delitem, r, s), False, what)
            elif kind == 'slice':
                record(attempt(operator.getitem, p, slice(o[2], o[3])), attempt(operator.getitem, r, slice(o[2], o[3])), True, what)
            elif kind == 'iterate':
                want, got = attempt(list, p), attempt(list, r)
                if isinstance(p, type):
                    continue
                record(want, got, False, what)
                if got[0] == 'ok':
                    check(all(type(x) is TaintedObject for x in got[1]), 'iterating gave something not tainted')
            elif kind == 'next':
                if isinstance(p, (list, tuple, str)):
                    a, b = taint(iter(list(p))), iter(list(p))
                    for _ in range(len(p)):
                        x = next(a)
                        check(type(x) is TaintedObject, 'next gave something not tainted')
                        check(same(untaint(x), untaint(next(b))), 'next gave something else')
                    raises(StopIteration, next, a)
            elif kind == 'getattr':
                if isinstance(p, type):
                    continue
                want, got = attempt(getattr, p, o[2]), attempt(getattr, r, o[2])
                record(want, got, True, what)
            elif kind == 'setattr':
                if isinstance(p, type) or not t or contains(q, p):
                    continue
                want = attempt(setattr, p, o[2], q)
                record(want, attempt(setattr, r, o[2], s), False, what)
                if want[0] == 'ok':
                    check(type(getattr(access_tainted(r), o[2])) is TaintedObject, 'what was set as an attribute of a tainted object is not tainted')
            elif kind == 'delattr':
                if isinstance(p, type):
                    continue
                record(attempt(delattr, p, o[2]), attempt(delattr, r, o[2]), False, what)
            elif kind == 'method':
                if not isinstance(p, Point) or not t:
                    continue
                args = (q,) if o[2] == 'total' else ()
                rargs = (s,) if o[2] == 'total' else ()
                if any(isinstance(z, (bytes, bytearray)) for z in (getattr(p, 'x', None), q)):
                    continue
                if o[2] == 'total' and isinstance(getattr(p, 'x', None), list):
                    continue
                record(attempt(lambda: getattr(p, o[2])(*args)), attempt(lambda: getattr(r, o[2])(*rargs)), True, what)
            elif kind == 'call':
                if isinstance(p, Point) and t:
                    record(attempt(lambda: p(q, k=1)), attempt(lambda: r(s, k=1)), True, what)
                elif not callable(p):
                    record(attempt(lambda: p()), attempt(lambda: r()), True, what)
            elif kind == 'with':
                if isinstance(p, Point) and not isinstance(getattr(p, 'x', None), (str, bytes, bytearray, list, tuple)):
                    record(attempt(manage, p, o[2]), attempt(manage, r, o[2]), True, what)
            elif kind == 'repr':
                if t:
                    eq(repr(r), '%s TAINTED' % (access_tainted(r),), 'repr')
            elif kind == 'alias':
                plain.append(p)
                real.append(r)
            elif kind == 'taint':
                before = untaint(r)
                if any(contains(x, p) and x is not p for x in plain):
                    continue
                real.append(taint(r))
                check(same(untaint(real[-1]), before), 'tainting altered a value')
                plain.append(p)
            elif kind == 'access':
                x = access_tainted(r)
                check(type(x) is type(p), 'access_tainted returned %s', type(x))
            elif kind == 'key':
                # tainted ones can be keys in dictionaries along with plain ones
                if attempt(hash, p)[0] == 'ok' and attempt(hash, q)[0] == 'ok' and not has_nan(p) and not has_nan(q):
                    d1, d2 = {p: 1}, {r: 1}
                    d1[q] = d2[s] = 2
                    eq(sorted(d2.values()), sorted(d1.values()), 'values for keys %r and %r' % (untaint(r), untaint(s)))
        # nothing has altered anything else
        for i in range(len(plain)):
            check(same(untaint(real[i]), untaint(plain[i])), 'value number %s is %r, should be %r', i, untaint(real[i]), plain[i])
        living = list(env.get_tainted_variables())
        for i in range(len(plain)):
            if is_tainted(i):
                x = access_tainted(real[i])
                check(any(y is x for y in living), 'tainted value %r is missing from tainted variables', untaint(x))
    return done >= 5


def has_nan(x):
    return x != x


def contains(x, what):
    """Would putting x within what make a cycle?"""
    if x is what:
        return True
    if isinstance(x, (list, tuple, set)):
        return any(contains(y, what) for y in x)
    if isinstance(x, dict):
        return any(contains(y, what) for y in x.values())
    if isinstance(x, Point):
        return any(contains(y, what) for y in x.__dict__.values())
    if hasattr(x, '__self__'):
        return contains(x.__self__, what)
    return False


def manage(x, exc):
    with x as y:
        if exc is not None:
            raise exc()
    return y


sessions_ops = st.lists(st.one_of(op('enter', st.integers(0, 2)), op('exit'), op('exit by exception'), op('taint'), op('taint'), op('drop', st.integers(0, 9)), op('list'), op('thread'), op('in progress')), min_size=3, max_size=20)


class Unique:
    pass


@prop.facet(st.lists(sessions_ops, min_size=1, max_size=3), 'several sessions', quick=200, thorough=8000)
def sessions(case):
    """Histories of sessions, of several threads in turns: each thread has its own, one at a time, with its own variables"""
    envs_entered = 0
    failures = []
    turn = [threading.Lock() for _ in case]
    for l in turn:
        l.acquire()
    back = threading.Lock()
    back.acquire()

    def actor(program, lock):
        nonlocal envs_entered
        envs = [TaintingEnvironment() for _ in range(3)]
        current, held = None, []        # held: (object, tainted, environment)
        try:
            for o in program:
                yield
                if o[0] == 'enter':
                    e = envs[o[1]]
                    if current is None:
                        check(e.__enter__() is e, 'entering returned something else')
                        current = e
                        envs_entered += 1
                    else:
                        raises(RuntimeError, e.__enter__)
                    eq([x.enabled for x in envs], [x is current for x in envs], 'enabled')
                elif o[0] in ('exit', 'exit by exception'):
                    if current is not None:
                        check(not current.__exit__(*((None,) * 3 if o[0] == 'exit' else (KeyError, KeyError(), None))), 'exception is swallowed')
                        current = None
                        eq([x.enabled for x in envs], [False] * 3, 'enabled')
                elif o[0] == 'taint':
                    u = Unique()
                    if current is None:
                        raises(RuntimeError, taint, u)
                        raises(RuntimeError, TaintedObject, u)
                    else:
                        held.append((u, taint(u), current))
                elif o[0] == 'drop':
                    if held:
                        del held[o[1] % len(held)]
                elif o[0] == 'list':
                    for e in envs:
                        got = [id(x) for x in e.get_tainted_variables()]
                        eq(sorted(got), sorted(id(u) for u, _, e1 in held if e1 is e), 'tainted variables')
                else:
                    if current is None:
                        raises(RuntimeError, TaintingEnvironment.get_session_in_progress)
                    else:
                        check(TaintingEnvironment.get_session_in_progress() is current, 'another session is in progress')
                check(all(access_tainted(t1) is u1 for u1, t1, _ in held), 'value inside was altered')
                u = None
        finally:
            if current is not None:
                current.__exit__(None, None, None)

    gens = [actor(p, l) for p, l in zip(case, turn)]
    stop = []

    def worker(g, lock):
        alive = True
        while True:
            lock.acquire()
            if stop:
                if alive:
                    g.close()
                back.release()
                return
            if alive:
                try:
                    next(g)
                except StopIteration:
                    alive = False
                    finished.append(g)
                except BaseException as e:
                    failures.append(e)
                    alive = False
                    finished.append(g)
            back.release()

    finished = []
    threads = [threading.Thread(target=worker, args=(g, l), daemon=True) for g, l in zip(gens, turn)]
    for x in threads:
        x.start()
    while len(finished) < len(gens) and not failures:
        for l in turn:
            l.release()
            back.acquire()
    stop.append(1)
    for l in turn:
        l.release()
        back.acquire()
    for x in threads:
        x.join()
    if failures:
        raise failures[0]
    return envs_entered > 1
