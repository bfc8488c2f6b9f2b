"""P38: unhandled exceptions reach the installed handlers, in order, once, and dumps describe that very exception"""
import contextlib
import io
import logging
import os
import pickle
import signal
import sys
import threading
import time
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, patched, scratch_dir, in_child, HarnessError
from gen import op

from satella.exception_handling import GlobalExcepthook, BaseExceptionHandler, FunctionExceptionHandler, exception_handler, DumpToFileHandler, AsStream, MemoryErrorExceptionHandler, \
    NORMAL_PRIORITY, ALWAYS_FIRST, ALWAYS_LAST
from satella.instrumentation import Traceback

prop = Property('P38', ['handlers do not install or remove handlers while an exception is handled', 'killing is observed with stand-ins for os.kill and os.killpg'])
warnings.simplefilter('ignore')

EXCEPTIONS = {'ValueError': ValueError, 'KeyError': KeyError, 'OSError': OSError, 'RuntimeError': RuntimeError}
exceptions = st.sampled_from(sorted(EXCEPTIONS))


class Custom(BaseExceptionHandler):
    def __init__(self, fun, priority):
        super().__init__(priority)
        self.fun = fun

    def handle_exception(self, type_, value, traceback):
        return self.fun(type_, value, traceback)


@contextlib.contextmanager
def clean_hooks():
    g = GlobalExcepthook()
    before = list(g.installed_hooks)
    try:
        yield g
    finally:
        for h in list(g.installed_hooks):
            if h not in before:
                g.remove_hook(h)
        for h in before:
            g.add_hook(h)


def raise_from(depth, exc, marker):
    local_marker = marker
    if depth:
        return raise_from(depth - 1, exc, marker)
    raise exc


def caught(depth, exc, marker):
    try:
        raise_from(depth, exc, marker)
    except BaseException as e:
        return type(e), e, e.__traceback__


def deliver(how, depth, exc, marker):
    """Let an exception be unhandled. -> stderr"""
    err = io.StringIO()
    with patched(sys, stderr=err):
        if how == 'main':       # the way the interpreter does that
            info = caught(depth, exc, marker)
            sys.excepthook(*info)
        elif how == 'handling':
            try:
                raise_from(depth, exc, marker)
            except BaseException:
                sys.excepthook(*sys.exc_info())
        else:
            with patched(threading, excepthook=lambda args: None):
                if how == 'thread':
                    thread = threading.Thread(target=raise_from, args=(depth, exc, marker))
                elif how == 'timer':
                    thread = threading.Timer(0, raise_from, args=(depth, exc, marker))
                else:
                    class MyThread(threading.Thread):
                        def run(self):
                            raise_from(depth, exc, marker)
                    thread = MyThread()
                thread.start()
                thread.join()
    return err.getvalue()


ways = st.sampled_from(['main', 'handling', 'thread', 'subclass', 'timer'])
answers = st.sampled_from([None, None, None, False, True, 0, 1, [False, False], [False, True], [], (), 'raise', 'raise', 'raise_memory'])
handler = st.tuples(st.sampled_from(['function', 'decorator', 'plain decorator', 'callable', 'class']), st.sampled_from([NORMAL_PRIORITY, ALWAYS_FIRST, ALWAYS_LAST, 10, 500, -500]), answers)
program = st.lists(st.one_of(op('install', st.integers(0, 5)), op('install', st.integers(0, 5)), op('add', st.integers(0, 5)), op('remove', st.integers(0, 5)), op('uninstall', st.integers(0, 5)), op('raise', ways, exceptions, st.integers(0, 3)), op('raise', ways, exceptions, st.integers(0, 3)), op('exit', st.sampled_from(['main', 'thread']))), min_size=3, max_size=16)


@prop.facet(st.tuples(st.lists(handler, min_size=1, max_size=6), program, st.booleans()), 'several handlers took part, one of them intercepting or failing', quick=400, thorough=10000)
def handlers(case):
    """Histories of installing, removing and exceptions, against a model of who gets called"""
    specs, ops_, everybody = case
    calls, installed, interesting = [], [], False
    made, priorities, skip_exit = [], [], []

    def make(i, spec):
        kind, priority, answer = spec

        def fun(type_, value, traceback):
            calls.append((i, type_, value, traceback))
            if answer == 'raise':
                raise RuntimeError('handler failed')
            if answer == 'raise_memory':
                raise MemoryError('handler failed')
            return list(answer) if isinstance(answer, list) else answer
        if kind == 'function':
            h = FunctionExceptionHandler(fun, priority)
        elif kind == 'decorator':
            h = exception_handler(priority)(fun)
        elif kind == 'plain decorator':
            h, priority = exception_handler(fun), 0
        elif kind == 'callable':
            h, priority = fun, 0
        else:
            h = Custom(fun, priority)
        made.append(h)
        priorities.append(priority)
        skip_exit.append(kind != 'class')

    for i, s in enumerate(specs):
        make(i, s)

    with clean_hooks() as g:
        for o in [('install', i) for i in range(len(specs) if everybody else 0)] + ops_:
            if o[0] in ('install', 'add', 'remove', 'uninstall'):
                i = o[1] % len(made)
                if o[0] in ('install', 'add'):
                    if not isinstance(made[i], BaseExceptionHandler):
                        made[i] = g.add_hook(made[i])
                        check(isinstance(made[i], BaseExceptionHandler), 'add_hook returned %r', made[i])
                    elif o[0] == 'add':
                        check(g.add_hook(made[i]) is made[i], 'add_hook did not return the handler')
                    else:
                        check(made[i].install() is made[i], 'install did not return the handler')
                    if i not in installed:
                        installed.append(i)
                elif i in installed:
                    if o[0] == 'remove':
                        g.remove_hook(made[i])
                    else:
                        made[i].uninstall()
                    installed.remove(i)
                elif isinstance(made[i], BaseExceptionHandler):
                    raises(ValueError, g.remove_hook, made[i])
                continue
            calls.clear()
            exc = SystemExit(3) if o[0] == 'exit' else EXCEPTIONS[o[2]]('the problem')
            err = deliver(o[1], 0 if o[0] == 'exit' else o[3], exc, 'm')
            got = [c[0] for c in calls]
            if o[0] == 'exit':
                if o[1] == 'thread':
                    eq(got, [], 'called for a SystemExit in a thread')
                else:
                    check(not any(skip_exit[i] for i in got), 'functions called for a SystemExit')
                continue
            # an exception is delivered to those by priority until one says so
            check(len(set(got)) == len(got), 'handlers called more than once: %r', got)
            eq([priorities[i] for i in got], sorted(priorities[i] for i in got), 'priorities of handlers as called')
            for c in calls:
                check(c[1] is type(exc) and c[2] is exc, 'called with %r', c)
                check(c[3] is not None and innermost(c[3]).f_code.co_name == 'raise_from', 'called with a wrong traceback')
            stopped = [i for i in got if intercepts(specs[i])]
            check(len(stopped) <= 1 and (not stopped or got[-1] == stopped[0]), 'called after being intercepted: %r', got)
            if stopped:
                limit = priorities[stopped[0]]
                missing = [i for i in installed if i not in got and priorities[i] < limit]
            else:
                missing = [i for i in installed if i not in got]
            check(not missing, 'not called: %r', missing)
            check(set(got) <= set(installed), 'not installed, yet called: %r', set(got) - set(installed))
            failed = [i for i in got if str(specs[i][2]).startswith('raise')]
            eq('handler failed' in err, bool(failed), 'failures of handlers are told')
            eq('the problem' in err.replace('handler failed', '') and err.rstrip().endswith(last_line(exc)), not stopped, 'is displayed by the original hook: %r' % (err,))
            interesting = interesting or len(got) > 1 and bool(stopped or failed)
    return interesting


def last_line(exc):
    return '%s: %s' % (type(exc).__name__, exc)


def innermost(tb):
    while tb.tb_next:
        tb = tb.tb_next
    return tb.tb_frame


def intercepts(spec):
    answer = spec[2]
    if isinstance(answer, str):
        return False
    if isinstance(answer, (list, tuple)):
        return any(answer) if spec[0] != 'class' else bool(answer)
    return bool(answer)


class Minimal:
    """Supports write() only"""
    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)


class Flushed(Minimal):
    def __init__(self):
        super().__init__()
        self.flushed = 0

    def flush(self):
        self.flushed = len(self.parts)


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


targets = st.lists(st.sampled_from(['path', 'path', 'existing', 'dir', 'minimal', 'flushed', 'stream', 'none', 'logger', 'logger at', 'as_stream path', 'as_stream']), max_size=4)
pickle_targets = st.lists(st.sampled_from(['path', 'existing', 'dir', 'minimal', 'flushed', 'stream', 'none', 'as_stream path', 'as_stream']), max_size=3)
markers = st.text('abcxyz', min_size=4, max_size=8)


@prop.facet(st.tuples(targets, pickle_targets, st.lists(st.tuples(ways, exceptions, st.integers(0, 3), st.sampled_from(['quux', 'wibble', 'zażółć', 'frob'])), min_size=1, max_size=3)), 'several targets and exceptions', quick=150, thorough=3000)
def dumps(case):
    """Dumps, human-readable and pickled, to targets of every kind: they describe the exception at hand"""
    readable, pickles, exceptions_ = case
    with scratch_dir() as root, clean_hooks():
        def target(i, kind, binary):
            path = os.path.join(root, '%s%s' % ('p' if binary else 'h', i))
            if kind == 'existing':
                with open(path, 'w') as f:
                    f.write('previous content' * 100)
            if kind in ('path', 'existing'):
                return path, lambda: last_file(path)
            if kind == 'dir':
                os.mkdir(path)
                return path, lambda: dir_file(path)
            if kind == 'as_stream path':
                return AsStream(path, not binary), lambda: last_file(path)
            if kind in ('minimal', 'flushed', 'as_stream'):
                f = Minimal() if kind == 'minimal' else Flushed()

                def read():
                    parts, f.parts = f.parts, []
                    check(kind == 'minimal' or f.flushed == len(parts), 'not flushed')
                    f.flushed = 0
                    return (b'' if binary else '').join(parts)
                return (AsStream(f, not binary) if kind == 'as_stream' else f), read
            if kind == 'stream':
                f = io.BytesIO() if binary else io.StringIO()

                def read():
                    v = f.getvalue()
                    f.seek(0)
                    f.truncate()
                    return v
                return f, read
            if kind == 'none':
                return None, None
            logger = logging.Logger('l%s' % (i,))
            h = Records()
            logger.addHandler(h)

            def read_log():
                eq(len(h.records), 1, 'log entries')
                r = h.records.pop()
                eq(r.levelno, logging.ERROR if kind == 'logger' else logging.WARNING, 'log level')
                check(r.exc_info and r.exc_info[1] is current[0], 'logged about %r', r.exc_info)
                check(str(current[0]) in r.getMessage(), 'logged message %r', r.getMessage())
                return '%s\n%s' % (r.getMessage(), r.stack_info or '')
            return (logger if kind == 'logger' else (logger, logging.WARNING)), read_log

        def last_file(path):
            with open(path, 'rb') as f:
                v = f.read()
            return v if os.path.basename(path).startswith('p') else v.decode('utf8')

        def dir_file(path):
            entries = sorted(os.listdir(path))
            check(entries, 'nothing was put to the directory')
            contents = []
            for e in entries:
                with open(os.path.join(path, e), 'rb') as f:
                    contents.append(f.read())
            # a single file, or one for each exception
            contents = [c for c in contents if message[0].encode('utf8') in c or len(contents) == 1]
            eq(len(contents), 1, 'files about this exception')
            return contents[0] if os.path.basename(path).startswith('p') else contents[0].decode('utf8')

        hs = [target(i, k, False) for i, k in enumerate(readable)]
        ps = [target(i, k, True) for i, k in enumerate(pickles)]
        h = DumpToFileHandler([t for t, _ in hs], [t for t, _ in ps] if ps else None)
        h.install()
        current, message = [None], [None]
        for n, (how, kind, depth, marker) in enumerate(exceptions_):
            message[0] = 'message number %s' % (n,)
            exc = current[0] = EXCEPTIONS[kind](message[0])
            err = deliver(how, depth, exc, marker)
            check('processing a hook' not in err, 'handler failed: %s', err)
            check(message[0] in err, 'handler intercepted')
            for (_, read), k in zip(hs, readable):
                if read is not None:
                    text = read()
                    check(message[0] in text, '%s: does not mention the exception: %s', k, text)
                    check(kind in text, '%s: does not mention its type: %s', k, text)
                    check('raise_from' in text, '%s: does not have the frames: %s', k, text)
                    check('local_marker: %r' % (marker,) in text, '%s: does not have the variables: %s', k, text)
            for (_, read), k in zip(ps, pickles):
                if read is not None:
                    tb = Traceback.from_pickle(read())
                    check(message[0] in tb.formatted_traceback, '%s: pickle does not mention the exception', k)
                    names = [f.name for f in tb.frames]
                    eq(names[:depth + 1], ['raise_from'] * (depth + 1), '%s: innermost frames' % (k,))
                    check('raise_from' not in names[depth + 1:], '%s: more frames than there were', k)
                    eq(tb.frames[0].locals['local_marker'].load_value(), marker, '%s: variable' % (k,))
        h.uninstall()
        current[0] = ValueError('after being removed')
        deliver('main', 0, current[0], 'q')
        for (_, read), k in zip(hs, readable):
            if read is not None and k in ('minimal', 'flushed', 'stream', 'as_stream'):
                eq(read(), '', 'output after being uninstalled')
    return len(readable) + len(pickles) > 1 and len(exceptions_) > 1


@prop.facet(st.sampled_from([5, 1.5, b'x', [], {}, object]), 'all of them', quick=6)
def bad_targets(case):
    """Anything else is refused right away"""
    raises(TypeError, DumpToFileHandler, [case])
    raises(TypeError, DumpToFileHandler, [], [case])
    return True


class MemErr(MemoryError):
    pass


@prop.facet(st.tuples(st.booleans(), st.booleans(), st.sampled_from(['default', False, True, None, 0, 1, [False, False], [False, True], [True], [], 'raise']), st.lists(st.tuples(ways, st.sampled_from(['MemoryError', 'MemErr', 'ValueError'])), min_size=1, max_size=3), st.booleans(), st.sampled_from([None, None, 0, 1, 2])), 'a MemoryError was seen', quick=80, thorough=1500)
def memory_errors(case):
    """With a stand-in for killing: process is killed if and only if the exception is a MemoryError and the custom hook does not object, unless the handler was uninstalled"""
    kill_pg, leader, answer, raised, install_twice, uninstall_at = case

    def child():
        killed, called, later, slept = [], [], [], []
        os.kill = lambda pid, sig: killed.append(('process', pid == os.getpid(), int(sig)))
        os.killpg = lambda pgid, sig: killed.append(('group', pgid == os.getpid(), int(sig)))
        os.abort = os._exit
        if leader:
            os.setpgid(0, 0)
        elif os.getpgid(0) == os.getpid():
            return 'skip'
        time.sleep = slept.append

        def hook(type_, value, tb):
            called.append((type_, value, tb))
            if answer == 'raise':
                raise ValueError('hook')
            return answer
        h = MemoryErrorExceptionHandler(kill_pg=kill_pg) if answer == 'default' else MemoryErrorExceptionHandler(hook, kill_pg)
        h.install()
        if install_twice:
            raises(RuntimeError, h.install)
        GlobalExcepthook().add_hook(FunctionExceptionHandler(lambda t, v, tb: later.append(v), -100))
        seen = False
        for i, (how, kind) in enumerate(raised):
            del killed[:], called[:], later[:]
            if i == uninstall_at:
                h.uninstall()
                exc = MemoryError('m')
                deliver(how, 1, exc, 'm')
                eq((killed, called, later), ([], [], [exc]), 'killed, hook calls and other handlers with the handler uninstalled')
                h.install()
                del later[:]
            exc = {'MemoryError': MemoryError, 'MemErr': MemErr, 'ValueError': ValueError}[kind]('m')
            deliver(how, 1, exc, 'm')
            if kind == 'ValueError':
                eq((killed, called), ([], []), 'something done on another exception')
                eq(later, [exc], 'other handlers')
                continue
            seen = True
            if answer != 'default':
                check(len(called) == 1 and called[0][0] is type(exc) and called[0][1] is exc, 'custom hook called with %r', called)
            objects = answer not in ('default', 'raise') and (any(answer) if isinstance(answer, list) else bool(answer))
            if objects:
                eq(killed, [], 'killed although the hook objected')
            else:
                eq(killed, [('group' if kill_pg and leader else 'process', True, int(signal.SIGKILL))], 'killed')
            eq(later, [], 'other handlers')
        return seen

    return in_child(child) is True
