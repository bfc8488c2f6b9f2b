"""P37: captured tracebacks - what they record, and that it survives serialization"""
import _thread
import builtins
import io
import json
import os
import pickle
import signal
import sys
import threading
import zlib

from hypothesis import strategies as st

from harness import Property, check, eq, raises, HarnessError
from gen import op

from satella.instrumentation import Traceback, StackFrame, StoredVariableValue, GenerationPolicy, frame_from_traceback, dump_frames_on, install_dump_frames_on
from satella.json import json_encode

prop = Property('P37', ['values are compared by equality after being loaded', 'values of locals and globals do not change while captured'])

FAILURES = {'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'AttributeError': AttributeError, 'ImportError': ImportError, 'RuntimeError': RuntimeError, 'IndexError': IndexError, 'EOFError': EOFError}
failure = st.sampled_from(sorted(FAILURES))


class BadRepr:
    def __init__(self, error):
        self.error = error

    def __repr__(self):
        raise FAILURES[self.error]('repr')

    def __eq__(self, other):
        return isinstance(other, BadRepr) and other.error == self.error


class BadReduce:
    """Fails to be pickled; if nasty then with an exception that fails to be displayed"""
    def __init__(self, error, nasty):
        self.error, self.nasty = error, nasty

    def __reduce__(self):
        raise FAILURES[self.error](BadRepr('ValueError') if self.nasty else 'reduce')

    def __repr__(self):
        return 'BadReduce(%s)' % (self.error,)


class Alike:
    def __repr__(self):
        return 'alike'


class AlikeToo(Alike):
    pass


def fail_to_load(error):
    raise FAILURES[error]('load')


class BadLoad:
    def __init__(self, error):
        self.error = error

    def __reduce__(self):
        return fail_to_load, (self.error,)

    def __repr__(self):
        return 'BadLoad(%s)' % (self.error,)


plain = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=20), st.binary(max_size=20), st.floats(allow_nan=False)),
                     lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.text(max_size=3), x, max_size=3), st.tuples(x, x)), max_leaves=6)
spec = st.one_of(op('plain', plain), op('big', st.sampled_from(['ab', 'x']), st.sampled_from([10, 100, 2000])), op('plain', plain), op('lambda'), op('bad_repr', failure), op('bad_reduce', failure, st.booleans()), op('bad_load', failure), op('wrapped', plain), op('empty'))


def build(s):
    """-> value, does it pickle, does it load"""
    if s[0] in ('plain', 'wrapped'):
        v = s[1] if s[0] == 'plain' else [s[1], (s[1],)]
        try:
            pickle.dumps(v, pickle.HIGHEST_PROTOCOL)
        except Exception:
            return v, False, False
        return v, True, True
    if s[0] == 'big':
        return s[1] * s[2], True, True
    if s[0] == 'lambda':
        return (lambda: 0), False, False
    if s[0] == 'bad_repr':
        return BadRepr(s[1]), True, True
    if s[0] == 'bad_reduce':
        return BadReduce(s[1], s[2]), False, False
    if s[0] == 'bad_load':
        return BadLoad(s[1]), True, False
    return b'', True, True


policies = st.one_of(st.none(), st.fixed_dictionaries({}, optional={'enable_pickling': st.booleans(), 'compress_at': st.sampled_from([0, 10, 50, 1000]), 'repr_length_limit': st.sampled_from([None, 0, 3, 20, 500]), 'compression_level': st.integers(1, 9)}))


class OnlyStrings(GenerationPolicy):
    def should_pickle(self, value):
        return isinstance(value, str)

    def process_repr(self, r):
        return 'R' + super().process_repr(r)


def make_policy(p):
    if p is None:
        return None
    if p.get('compression_level') == 3:
        return OnlyStrings(**p)
    return GenerationPolicy(**p)


def pickled(p, value):
    if p is None:
        return True
    if p.get('compression_level') == 3:
        return isinstance(value, str)
    return p.get('enable_pickling', True)


def expected_repr(p, value):
    """None if it cannot be had"""
    try:
        r = repr(value)
    except Exception:
        return None
    limit = 128 * 1024 if p is None else p.get('repr_length_limit', 128 * 1024)
    if limit is not None and len(r) > limit:
        r = r[:limit] + '...'
    if p is not None and p.get('compression_level') == 3:
        r = 'R' + r
    return r


def verify_value(sv, p, value, dumps, loads, whence):
    want = expected_repr(p, value)
    check(isinstance(sv.repr, str), '%s: repr is not a text', whence)
    if want is not None:
        eq(sv.repr, want, '%s: repr' % (whence,))
        eq(str(sv), want, '%s: str' % (whence,))
        check(want in repr(sv), '%s: repr() of it is %r', whence, repr(sv))
    eq(sv.type_, repr(type(value)), '%s: type' % (whence,))
    if pickled(p, value) and dumps:
        data = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        at = 128 * 1024 if p is None else p.get('compress_at', 128 * 1024)
        eq(sv.pickle_type, 'pickle/gzip' if len(data) > at else 'pickle', '%s: pickle type' % (whence,))
        if len(data) > at:
            check(len(sv.pickle) <= len(zlib.compress(data, 1)) + 64, '%s: not compressed', whence)
    else:
        eq(sv.pickle_type, 'failed' if pickled(p, value) else None, '%s: pickle type' % (whence,))
        if not pickled(p, value):
            eq(sv.pickle, None, '%s: pickle' % (whence,))
    if pickled(p, value) and loads:
        eq(sv.load_value(), value, '%s: value loaded' % (whence,))
    else:
        raises(ValueError, sv.load_value)


@prop.facet(st.tuples(spec, policies), 'a value was compressed, or could not be displayed, pickled or loaded', quick=1500, thorough=40000)
def values(case):
    """Stored values under a policy, and their transport by pickle and by JSON"""
    s, p = case
    value, dumps, loads = build(s)
    policy = make_policy(p)
    sv = StoredVariableValue(value) if policy is None else StoredVariableValue(value, policy)
    verify_value(sv, p, value, dumps, loads, 'captured')
    for protocol in (2, pickle.HIGHEST_PROTOCOL):
        again = pickle.loads(pickle.dumps(sv, protocol))
        verify_value(again, p, value, dumps, loads, 'pickled')
        check(again == sv, 'pickled one differs')
    again = StoredVariableValue.from_json(json.loads(json.dumps(sv.to_json())))
    verify_value(again, p, value, dumps, loads, 'through JSON')
    check(again == sv, 'one through JSON differs')
    twice = StoredVariableValue.from_json(json.loads(json_encode(again)))
    verify_value(twice, p, value, dumps, loads, 'through JSON twice')
    eq(twice.to_json(), sv.to_json(), 'JSON')
    other = StoredVariableValue(['another', value], policy) if expected_repr(p, value) and (p or {}).get('repr_length_limit', 500) == 500 else None
    if other is not None:
        check(not (other == sv), 'different values are equal')
    check(not (StoredVariableValue(Alike(), policy) == StoredVariableValue(AlikeToo(), policy)), 'values of different types are equal')
    return sv.pickle_type != 'pickle' or not loads or expected_repr(p, value) is None


NAMES = st.sampled_from(['alpha', 'beta', 'gamma', 'delta'])
variables = st.dictionaries(st.sampled_from(['x', 'y', 'val', 'long_name']), spec, max_size=3)
level = st.tuples(NAMES, st.integers(0, 3), variables, st.dictionaries(st.sampled_from(['G1', 'G2']), spec, max_size=2))
stacks = st.lists(level, min_size=1, max_size=4)


def make_stack(levels, bottom, catch_at, capture):
    """
    Make functions that call one another. The last one calls bottom, and the one called catch_at handles an exception.

    :return: callable/0, expected frames starting with the outermost one: name, filename, line of the call, locals, globals
    """
    nxt, expected = bottom, []
    for i in reversed(range(len(levels))):
        name, blank, vs, gs = levels[i]
        built = {k: build(s) for k, s in vs.items()}
        g_built = {k: build(s) for k, s in gs.items()}
        filename = '<level %s>' % (i,)
        src = ['def %s(%s):' % (name, ', '.join(['nxt', 'capture'] + sorted(vs)))] + ['    '] * blank
        if i == catch_at:
            src += ['    try:', '        nxt()', '    except Exception:', '        return capture()']
            line = len(src)
        else:
            src += ['    return nxt()']
            line = len(src)
        g = {k: v[0] for k, v in g_built.items()}
        g['__builtins__'] = {'Exception': Exception}
        exec(compile('\n'.join(src), filename, 'exec'), g)
        fun = g.pop(name)

        def call(fun=fun, nxt=nxt, args=[built[k][0] for k in sorted(vs)]):
            return fun(nxt, capture, *args)

        expected.insert(0, (name, filename, line, built, g_built))
        nxt = call
    return nxt, expected


def on_empty_stack(fun):
    """Run it with no frames above but our own"""
    out, done = [], threading.Lock()
    done.acquire()

    def body():
        try:
            out.append((True, fun()))
        except BaseException as e:
            out.append((False, e))
        finally:
            done.release()

    _thread.start_new_thread(body, ())
    done.acquire()
    ok, v = out[0]
    if not ok:
        raise v
    return v


def verify_frames(frames, expected, p, whence, line_of=None):
    got = [f for f in frames if f.filename.startswith('<level ')]
    eq([(f.name, f.filename, f.lineno) for f in got], [(n, f, l) for n, f, l, _, _ in reversed(expected)], '%s: frames, innermost first' % (whence,))
    for f, (name, _, _, built, g_built) in zip(got, reversed(expected)):
        eq(set(f.locals), {'nxt', 'capture'} | set(built), '%s: locals of %s' % (whence, name))
        for k, (value, dumps, loads) in built.items():
            verify_value(f.locals[k], p, value, dumps, loads, '%s: local %s of %s' % (whence, k, name))
        eq(set(f.globals) - {'__builtins__'}, set(g_built), '%s: globals of %s' % (whence, name))
        for k, (value, dumps, loads) in g_built.items():
            verify_value(f.globals[k], p, value, dumps, loads, '%s: global %s of %s' % (whence, k, name))


@prop.facet(st.tuples(stacks, policies, st.sampled_from(['exception', 'exception', 'exception', 'frame', 'none', 'from tb']), st.integers(0, 3), st.booleans(), failure), 'the exception crossed several frames or a value was hostile', quick=300, thorough=8000)
def captures(case):
    """Tracebacks of generated stacks: every frame with its variables, in order, and transport by pickle and by JSON"""
    levels, p, mode, catch_at, by_class, error = case
    catch_at = min(catch_at, len(levels) - 1)
    policy = make_policy(p)
    if policy is None:
        args = ()
    elif by_class and not isinstance(policy, OnlyStrings):
        class Configured(GenerationPolicy):
            __slots__ = ()

            def __init__(self):
                super().__init__(**p)
        args = Configured,
    else:
        args = policy,

    def tb_of(frame=None):
        return Traceback(frame, *args) if args else (Traceback(frame) if frame is not None else Traceback())

    def bottom():
        if mode in ('exception', 'from tb'):
            raise FAILURES[error]('as planned')
        if mode == 'frame':
            return tb_of(sys._getframe())
        return tb_of()

    def capture():
        if mode == 'from tb':
            return tb_of(frame_from_traceback(sys.exc_info()[2]))
        return tb_of()

    fun, expected = make_stack(levels, bottom, catch_at if mode in ('exception', 'from tb') else -1, capture)
    tb = on_empty_stack(fun)
    verify_frames(tb.frames, expected, p, 'captured')
    eq(tb.frames[-1].name, 'body', 'outermost frame')
    if mode != 'none':
        eq(tb.frames[0].name, 'bottom', 'innermost frame')
    if mode == 'exception':
        last = tb.formatted_traceback.rstrip().splitlines()[-1]
        check(last.startswith(error + ':') and 'as planned' in last, 'formatted traceback ends with %r', last)
    text = tb.pretty_format()
    out = io.StringIO()
    tb.pretty_print(out)
    eq(out.getvalue(), text, 'pretty print')
    check(text.startswith(tb.formatted_traceback), 'pretty print does not start with the traceback')
    position = 0
    for f in tb.frames:
        position = text.find('%s at %s:%s' % (f.name, f.filename, f.lineno), position)
        check(position >= 0, 'frame %s is not printed in order', f.name)
        for k, v in f.locals.items():
            check('%s: %s' % (k, v.repr) in text, 'variable %s is not printed', k)
    check(all(f.name in str(tb) for f in tb.frames), 'str() lacks a frame')
    stream = io.BytesIO()
    tb.pickle_to(stream)
    stream.seek(0)
    for whence, again in (('pickled', Traceback.from_pickle(tb.pickle())), ('pickled to stream', Traceback.from_pickle(stream)), ('pickle module', pickle.loads(pickle.dumps(tb))),
                          ('through JSON', Traceback.from_json(json.loads(json.dumps(tb.to_json())))), ('encoded', Traceback.from_json(json.loads(json_encode(tb))))):
        verify_frames(again.frames, expected, p, whence)
        eq(again.formatted_traceback, tb.formatted_traceback, '%s: formatted traceback' % (whence,))
        check(again == tb and tb == again, '%s: not equal', whence)
        eq(again.pretty_format(), text, '%s: pretty' % (whence,))
        eq(again.to_json(), tb.to_json(), '%s: JSON' % (whence,))
    raises(ValueError, Traceback.from_pickle, pickle.dumps([1, 2]))
    for change in ('name', 'filename', 'lineno'):
        other = Traceback.from_pickle(tb.pickle())
        setattr(other.frames[-1], change, 'changed')
        check(not (other == tb), 'equal in spite of %s', change)
    other = Traceback.from_pickle(tb.pickle())
    del other.frames[-1]
    check(not (other == tb), 'equal in spite of a lacking frame')
    return len(levels) - catch_at > 1 or any(v[0] in ('bad_repr', 'bad_reduce', 'bad_load', 'lambda') for l in levels for v in l[2].values())


@prop.facet(st.tuples(st.lists(st.dictionaries(st.sampled_from(['x', 'y', 'z']), spec, max_size=2), min_size=1, max_size=3), st.one_of(st.none(), st.integers(1, 15), st.just('USR2'))), 'several threads', quick=60, thorough=500)
def frame_dumps(case):
    """Dumps of all threads' stacks have each thread's frames with local variables"""
    threads, sig_no = case
    lock, started, expected = threading.Lock(), [], []
    lock.acquire()

    def start(i, vs):
        built = {k: build(s)[0] for k, s in vs.items()}
        up, finished = threading.Lock(), threading.Lock()
        up.acquire()
        finished.acquire()

        def bottom():
            up.release()
            lock.acquire()
            lock.release()

        g = {'__builtins__': {}}
        name = 'thread_%s' % (i,)
        exec(compile('def %s(%s):\n    return bottom()' % (name, ', '.join(['bottom'] + sorted(vs))), '<level %s>' % (i,), 'exec'), g)

        def body():
            try:
                g[name](bottom, *[built[k] for k in sorted(vs)])
            finally:
                finished.release()

        _thread.start_new_thread(body, ())
        up.acquire()
        started.append(finished)
        expected.append((name, built))

    out = io.StringIO()
    try:
        for i, vs in enumerate(threads):
            start(i, vs)
        # only our threads, for the sake of speed
        frames = {k: v for k, v in sys._current_frames().items() if any(f.startswith('thread_') for f in names_of(v))}
        real = sys._current_frames
        sys._current_frames = lambda: frames
        try:
            if sig_no == 'USR2' and threading.current_thread() is threading.main_thread():
                sig_no = int(signal.SIGUSR2)
                before = signal.getsignal(sig_no)
                try:
                    install_dump_frames_on(sig_no, out)
                    os.kill(os.getpid(), sig_no)
                    for _ in range(100):        # handlers are called between instructions
                        pass
                finally:
                    signal.signal(sig_no, before)
            else:
                dump_frames_on(sig_no, None, out)
        finally:
            sys._current_frames = real
    finally:
        lock.release()
        for finished in started:
            finished.acquire()
    text = out.getvalue()
    check(str(sig_no) in text.splitlines()[0], 'signal is not told: %r', text.splitlines()[0])
    for name, built in expected:
        check('%s at ' % (name,) in text, 'thread is missing')
        for k, v in built.items():
            try:
                r = repr(v)
            except Exception:
                continue
            check('%s: %s' % (k, r) in text, '%s of %s is missing', k, name)
    return len(threads) > 1


def names_of(frame):
    while frame:
        yield frame.f_code.co_name
        frame = frame.f_back
