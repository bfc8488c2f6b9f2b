"""
Shared machinery: a property is a list of *facets*; a facet is (strategy of plain-data cases,
run(case)).  ``run`` executes the case against the code in /repo, compares it with an explicit
oracle, raises on disagreement and returns whether the case was non-trivial.
"""
import contextlib
import hashlib
import os
import sys
import threading
import traceback


class Violation(AssertionError):
    """The code under test disagrees with the oracle"""


class HarnessError(Exception):
    """The harness itself is broken: never reported as a violation"""


class Trivial(Exception):
    """Raised by a case which turned out to be vacuous"""


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what=''):
    if not (got == want):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def same_type_eq(got, want, what=''):
    if type(got) is not type(want) or not (got == want):
        raise Violation('%s: got %r (%s), expected %r (%s)' % (what, got, type(got), want, type(want)))


MORE = 2        # how many times more cases than facets declare are generated by a quick run


class Facet:
    def __init__(self, name, strategy, run, rule, quick=300, thorough=6000, hang_s=60,
                 shrink=True):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick * MORE
        self.thorough = max(thorough, self.quick)
        self.hang_s = hang_s
        self.shrink = shrink


class Property:
    """Collects facets"""

    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.facets = []
        self.assumptions = list(assumptions)

    def facet(self, strategy, rule, quick=300, thorough=None, hang_s=60, name=None, shrink=True):
        def outer(fun):
            self.facets.append(Facet(name or fun.__name__, strategy, fun, rule, quick,
                                     thorough or quick * 20, hang_s, shrink))
            return fun

        return outer


class Outcome:
    """Outcome of calling something: ('ok', value) or ('exc', type)"""

    @staticmethod
    def of(fun, *args, **kwargs):
        try:
            return 'ok', fun(*args, **kwargs)
        except Exception as e:
            return 'exc', type(e)


def raises(exc, fun, *args, **kwargs):
    """Check that fun raises exc (a class or tuple); returns the exception"""
    try:
        v = fun(*args, **kwargs)
    except exc as e:
        return e
    raise Violation('expected %r, but the call returned %r' % (exc, v))


@contextlib.contextmanager
def expecting(exc, what=''):
    try:
        yield
    except exc:
        return
    raise Violation('expected %r to be raised %s' % (exc, what))


@contextlib.contextmanager
def patched(obj, **attrs):
    """Temporarily set attributes"""
    missing = object()
    old = {k: getattr(obj, k, missing) for k in attrs}
    try:
        for k, v in attrs.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            if v is missing:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


@contextlib.contextmanager
def scratch_dir():
    import shutil
    import tempfile
    path = tempfile.mkdtemp(prefix='vf-')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def in_child(fun):
    """
    Run fun in a forked process, so that no state outlives the case. Returns its result, which has to be picklable.
    """
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 3
        try:
            os.close(r)
            try:
                res = ('ok', fun())
            except Violation as e:
                res = ('violation', str(e))
            except Trivial:
                res = ('trivial', None)
            except HarnessError as e:
                res = ('harness', str(e))
            except BaseException:
                res = ('exc', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('the process died')
    kind, value = pickle.loads(data)
    if kind == 'ok':
        return value
    if kind == 'trivial':
        raise Trivial()
    if kind == 'harness':
        raise HarnessError(value)
    raise Violation(value)


class FakeClock:
    """A clock owned by the harness"""

    def __init__(self, start=1000.0):
        self.now = start

    def __call__(self):
        return self.now

    def advance(self, dt):
        self.now += dt

    @contextlib.contextmanager
    def installed(self):
        """Replace time.monotonic and time.time for the duration"""
        import time

        def sleep(dt):
            if dt < 0:
                raise ValueError('sleep length must be non-negative')
            self.now += dt

        with patched(time, monotonic=self, time=self, sleep=sleep):
            yield self
