"""P41: processes - PID locks, signals, daemons, output of subprocesses, executables"""
import sched as S           # before satella
import contextlib
import fcntl
import grp
import io
import os
import pickle
import pwd
import select
import signal
import stat
import subprocess
import sys
import time
import warnings

from hypothesis import strategies as st

from harness import Property, Violation, check, eq, raises, patched, scratch_dir, in_child, HarnessError
from gen import op

from satella.exceptions import ResourceLocked, ProcessFailed
from satella.os import PIDFileLock, hang_until_sig, daemonize, suicide, whereis, is_running_as_root
from satella.processes import call_and_return_stdout

prop = Property('P41', ['processes are children of the check, killing is observed with stand-ins', 'PIDs of dead processes are not used anew meanwhile', 'paths in PATH are absolute'])
warnings.simplefilter('ignore')
REAL_SLEEP = S._real_sleep


class Actor:
    """A child process that acquires and releases a lock when told to"""
    def __init__(self, path):
        self.to_r, self.to_w = os.pipe()
        self.from_r, self.from_w = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(self.to_w)
                os.close(self.from_r)
                lock = make_lock(path)
                with os.fdopen(self.to_r, 'rb', 0) as fin:
                    while True:
                        c = fin.read(1)
                        if not c or c == b'q':
                            break
                        os.write(self.from_w, pickle.dumps(perform(lock, c)))
            finally:
                os._exit(0)
        os.close(self.to_r)
        os.close(self.from_w)

    def do(self, c):
        os.write(self.to_w, c)
        return pickle.loads(os.read(self.from_r, 65536))

    def finish(self, kill):
        """Make sure that it's no more"""
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        else:
            os.write(self.to_w, b'q')
        os.close(self.to_w)
        os.close(self.from_r)
        os.waitpid(self.pid, 0)


def make_lock(path):
    return PIDFileLock(os.path.basename(path), os.path.dirname(path))


def perform(lock, c):
    try:
        if c == b'a':
            lock.acquire()
            return 'acquired',
        if c == b'r':
            lock.release()
            return 'released',
        if c == b'w':           # briefly
            with lock:
                with open(lock.path) as f:
                    return 'had', f.read()
        if c == b'x':
            try:
                with lock:
                    raise KeyError('inside')
            except KeyError:
                return 'left',
    except ResourceLocked as e:
        return 'locked', getattr(e, 'pid', None), getattr(e, 'is_alive', None)
    except RuntimeError as e:
        return 'not acquired',
    except BaseException as e:
        return 'failed', repr(e)


ACTORS = 3
actor = st.integers(0, ACTORS)       # the last one is in this process
lock_ops = st.lists(st.one_of(op('a', actor), op('a', actor), op('r', actor), op('w', actor), op('x', actor), op('kill', st.integers(0, ACTORS - 1)), op('exit', st.integers(0, ACTORS - 1)), op('write', st.sampled_from(['', 'garbage', '\n', '12 34', 'x12', '  \n'])), op('dead')), min_size=2, max_size=14)


@prop.facet(lock_ops, 'a lock was contended or stale', quick=60, thorough=1500)
def pid_locks(program):
    """Histories of processes that acquire, release and die: at most one living process holds the lock, and it is never stuck"""
    interesting = False
    with scratch_dir() as root, contextlib.ExitStack() as stack:
        path = os.path.join(root, 'my.pid')
        actors, alive = [], []
        for i in range(ACTORS):
            a = Actor(path)
            actors.append(a)
            alive.append(True)
        mine = make_lock(path)

        def cleanup():
            for i in range(ACTORS):
                if alive[i]:
                    actors[i].finish(True)
        stack.callback(cleanup)
        dead_pid = os.fork()
        if not dead_pid:
            os._exit(0)
        os.waitpid(dead_pid, 0)
        holder, thinks = None, set()         # an actor, or None: nobody that lives

        def pid_of(i):
            return os.getpid() if i == ACTORS else actors[i].pid

        def content():
            try:
                with open(path) as f:
                    return f.read()
            except FileNotFoundError:
                return None

        for o in program:
            if o[0] in ('kill', 'exit'):
                i = o[1]
                if alive[i]:
                    actors[i].finish(o[0] == 'kill')
                    alive[i] = False
                    thinks.discard(i)
                    if holder == i:
                        holder = None
                        eq(content(), '%s\n' % (pid_of(i),), 'file of a process that died')
                        interesting = True
                continue
            if o[0] in ('write', 'dead'):
                if holder is None:
                    with open(path, 'w') as f:
                        f.write(o[1] if o[0] == 'write' else '%s\n' % (dead_pid,))
                continue
            i = o[1]
            if i < ACTORS and not alive[i]:
                continue
            before = content()
            got = perform(mine, o[0].encode()) if i == ACTORS else actors[i].do(o[0].encode())
            if o[0] == 'r':
                if i in thinks:
                    eq(got, ('released',), 'release by the holder')
                    thinks.discard(i)
                    holder = None
                    eq(content(), None, 'file after a release')
                else:
                    eq(got, ('not acquired',), 'release by somebody else')
                    eq(content(), before, 'file after a release by somebody else')
                continue
            if holder is not None:
                interesting = True
                eq(got, ('locked', pid_of(holder), True), 'attempt while it is held')
                eq(content(), '%s\n' % (pid_of(holder),), 'file after a failed attempt')
                continue
            if before is not None:
                interesting = True
            if o[0] == 'a':
                eq(got, ('acquired',), 'attempt with file of %r' % (before,))
                eq(content(), '%s\n' % (pid_of(i),), 'file of the holder')
                holder = i
                thinks.add(i)
            else:
                eq(got, ('left',) if o[0] == 'x' else ('had', '%s\n' % (pid_of(i),)), 'held for a while, with file of %r' % (before,))
                eq(content(), None, 'file afterwards')
            eq(sorted(os.listdir(root)), ['my.pid'] if holder is not None else [], 'files left behind')
        raises(OSError, PIDFileLock('x.pid', os.path.join(root, 'nonexistent')).acquire)
    return interesting


@prop.facet(st.tuples(S.schedules(), st.sampled_from([None, 'stale', 'stale', '', 'garbage']), st.lists(st.integers(1, 3), min_size=2, max_size=3)), 'there was a stale file', quick=400, thorough=10000)
def races(case):
    """Several parties attempt at once (as threads, interleaved): at most one has it at a time, nothing fails"""
    schedule, before, parties = case
    flock = fcntl.flock

    def virtual_flock(fd, operation):
        """So that it is the scheduler who waits"""
        if operation & (fcntl.LOCK_UN | fcntl.LOCK_NB):
            return flock(fd, operation)
        while True:
            try:
                return flock(fd, operation | fcntl.LOCK_NB)
            except BlockingIOError:
                S._sleep(0.01)

    holders, won = [], []
    with scratch_dir() as root, patched(fcntl, flock=virtual_flock):
        path = os.path.join(root, 'my.pid')
        if before is not None:
            with open(path, 'w') as f:
                f.write('4194399\n' if before == 'stale' else before)       # greater than what the kernel allows

        def party(i, times):
            def run():
                lock = make_lock(path)
                for _ in range(times):
                    try:
                        lock.acquire()
                    except ResourceLocked:
                        S._sleep(0.01)
                        continue
                    holders.append(i)
                    won.append(i)
                    eq(holders, [i], 'holders')
                    S._sleep(0.001)
                    eq(holders, [i], 'holders')
                    with open(path) as f:
                        eq(f.read(), '%s\n' % (os.getpid(),), 'file')
                    holders.remove(i)
                    lock.release()
            return run

        S.Scheduler(schedule, True, free_time=True).run(*[party(i, n) for i, n in enumerate(parties)])
        check(won, 'nobody succeeded')
        check(not os.path.exists(path), 'file is left')
    return before is not None


SIGNALS = {'TERM': signal.SIGTERM, 'INT': signal.SIGINT, 'USR1': signal.SIGUSR1, 'USR2': signal.SIGUSR2, 'HUP': signal.SIGHUP}
names = st.sampled_from(sorted(SIGNALS))


@prop.facet(st.tuples(st.lists(st.tuples(st.lists(names, max_size=2), st.one_of(st.none(), st.lists(st.sampled_from(['USR1', 'USR2', 'HUP', 'INT', 'TERM']), unique=True, max_size=3)), names), min_size=1, max_size=3), st.sampled_from([0.01, 0.02])), 'a signal that was not waited for came first', quick=40, thorough=600)
def hanging(case):
    """Waits for signals, repeatedly: each ends upon signals it is to end upon only, and handlers are as they were"""
    rounds, interval = case

    def child():
        seen, interesting = [], False

        def handler(no, frame):
            seen.append(no)
        for s in SIGNALS.values():
            signal.signal(s, handler)
        for unwanted, extra, final in rounds:
            awaited = {'TERM', 'INT'} | set(extra or ())
            first = [u for u in unwanted if u not in awaited]
            interesting = interesting or bool(first)
            del seen[:]
            pid = os.getpid()
            final = final if final in awaited else 'TERM'
            go, told = os.pipe()
            ready_r, ready_w = os.pipe()

            def sleep(dt):
                os.write(ready_w, b'x')         # it's hanging
                REAL_SLEEP(dt)
            time.sleep = sleep
            kid = os.fork()
            if not kid:
                try:
                    select.select([ready_r], [], [], 5)
                    for u in first:
                        os.kill(pid, SIGNALS[u])
                        REAL_SLEEP(0.02)
                    REAL_SLEEP(0.02)
                    os.write(told, b'x')
                    os.kill(pid, SIGNALS[final])
                    REAL_SLEEP(15)
                    os.kill(pid, signal.SIGKILL)       # it did not end
                finally:
                    os._exit(0)
            hang_until_sig([SIGNALS[e] for e in extra] if extra is not None else None, interval) if extra is not None or interval != 0.01 else hang_until_sig(sleep_interval=interval)
            os.set_blocking(go, False)
            try:
                early = not os.read(go, 1)
            except BlockingIOError:
                early = True
            os.kill(kid, signal.SIGKILL)
            os.waitpid(kid, 0)
            os.close(go)
            for d in (told, ready_r, ready_w):
                os.close(d)
            check(not early, 'ended before a signal it was to end upon, after %r', first)
            eq(sorted(set(seen)), sorted(set(int(SIGNALS[u]) for u in first)), 'signals seen by previous handlers')
            for n, s in SIGNALS.items():
                check(signal.getsignal(s) is handler, 'handler of %s is not what it used to be', n)
        return interesting

    try:
        return in_child(child)
    except Violation as e:
        if 'the process died' in str(e):
            raise Violation('did not end upon a signal') from None
        raise


users = st.sampled_from([None, None, 'nobody', 'daemon', 65534, 1, 0])
nobody_group = grp.getgrgid(pwd.getpwnam('nobody').pw_gid).gr_name
groups = st.sampled_from([None, None, nobody_group, 'daemon', 'adm', 65534, 1, 0])


def can_switch():
    def probe():
        try:
            os.setegid(1)
            os.seteuid(1)
        except OSError:
            return False
        return True
    return os.geteuid() == 0 and in_child(probe)


@prop.facet(st.tuples(st.booleans(), users, groups), 'a user or group was set', quick=15, thorough=300)
def daemons(case):
    """Real daemons, reporting what they are"""
    redirect, uid, gid = case
    if (uid is not None or gid is not None) and not can_switch():
        return False
    r, w = os.pipe()
    go_r, go_w = os.pipe()
    first = os.fork()
    if not first:
        original = os.getpid()
        try:
            # descriptors of its own, as they'll be closed
            null = os.open('/dev/null', os.O_RDWR)
            for d in (0, 1, 2):
                os.dup2(null, d)
            sys.stdin, sys.stdout, sys.stderr = open(0, 'r', closefd=True), open(1, 'w', closefd=True), open(2, 'w', closefd=True)
            os.close(null)
            os.umask(0o22)
            report = {}
            try:
                kwargs = {}
                if uid is not None:
                    kwargs['uid'] = uid
                if gid is not None:
                    kwargs['gid'] = gid
                daemonize(lambda *args: os._exit(0), redirect, **kwargs)
                os.read(go_r, 1)
                umask = os.umask(0)
                report = {'pid': os.getpid(), 'ppid': os.getppid(), 'sid': os.getsid(0), 'umask': umask, 'cwd': os.getcwd(), 'euid': os.geteuid(), 'egid': os.getegid(), 'root': is_running_as_root(), 'original': original}
                report['closed'] = [d for d in (0, 1, 2) if not is_open(d)]
                report['null'] = [d for d in (0, 1, 2) if is_open(d) and os.fstat(d).st_rdev == os.stat('/dev/null').st_rdev]
                if redirect:
                    print('this goes nowhere')
                    sys.stdout.flush()
                    sys.stderr.write('neither does this')
                    sys.stderr.flush()
                    report['read'] = len(sys.stdin.read())
            except BaseException as e:
                report['error'] = repr(e)
            os.write(w, pickle.dumps(report))
        finally:
            os._exit(0)
    os.close(w)
    os.waitpid(first, 0)
    os.write(go_w, b'x')
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.close(go_r)
    os.close(go_w)
    check(data, 'there is no daemon')
    report = pickle.loads(data)
    check('error' not in report, 'failed: %s', report.get('error'))
    check(report['pid'] != report['original'] and report['ppid'] not in (os.getpid(), report['original']), 'is not a daemon: %r', report)
    check(report['sid'] not in (os.getsid(0), report['original']), 'is in the same session')
    eq((report['umask'], report['cwd']), (0, '/'), 'umask and current directory')
    want_uid = os.geteuid() if uid is None else (pwd.getpwnam(uid).pw_uid if isinstance(uid, str) else uid)
    want_gid = os.getegid() if gid is None else (grp.getgrnam(gid).gr_gid if isinstance(gid, str) else gid)
    eq((report['euid'], report['egid']), (want_uid, want_gid), 'user and group')
    eq(report['root'], want_uid == 0, 'is running as root')
    if redirect:
        eq(report['closed'], [], 'descriptors that were closed')
        eq(report['null'], [0, 1, 2], 'descriptors that lead to nowhere')
        eq(report['read'], 0, 'bytes on stdin')
    else:
        eq(report['closed'], [0, 1, 2], 'descriptors that were closed')
    return uid is not None or gid is not None


def is_open(d):
    try:
        os.fstat(d)
        return True
    except OSError:
        return False


@prop.facet(st.tuples(st.sampled_from([None, False, True]), st.booleans()), 'all of them', quick=6)
def suicides(case):
    """With stand-ins for killing: it's just the process, unless it leads its group and that is what's asked for"""
    entire, leader = case

    def child():
        killed = []
        os.kill = lambda pid, sig: killed.append(('process', pid == os.getpid(), int(sig)))
        os.killpg = lambda pgid, sig: killed.append(('group', pgid == os.getpid(), int(sig)))
        if leader:
            os.setpgid(0, 0)
        elif os.getpgid(0) == os.getpid():
            return False
        suicide() if entire is None else suicide(entire)
        eq(killed, [('group' if leader and entire is not False else 'process', True, 9)], 'killed')
        return True
    return in_child(child)


modes = st.sampled_from([0o644, 0o755, 0o700, 0o711, 0o070, 0o001, 0o600, 0o4755, 0o4700, 0o400])
entries = st.dictionaries(st.sampled_from(['tool', 'tool2', 'TOOL', 'tool.exe']), st.tuples(st.sampled_from(['file', 'file', 'file', 'dir', 'link', 'broken']), modes), min_size=1, max_size=4)


@prop.facet(st.tuples(st.lists(entries, min_size=2, max_size=3), st.lists(st.integers(0, 4), min_size=2, max_size=5), st.sampled_from(['tool', 'tool', 'tool', 'tool2', 'nothing'])), 'found in more than one', quick=200, thorough=4000)
def executables(case):
    """Directories with files of generated modes: exactly executable ones are found, in order of PATH"""
    dirs, order, name = case
    with scratch_dir() as root:
        want, path = [], []
        for i, es in enumerate(dirs):
            d = os.path.join(root, str(i))
            os.mkdir(d)
            for k, (kind, mode) in es.items():
                p = os.path.join(d, k)
                if kind == 'dir':
                    os.mkdir(p)
                    os.chmod(p, mode)
                elif kind == 'broken':
                    os.symlink(os.path.join(root, 'nowhere'), p)
                else:
                    target = p if kind == 'file' else os.path.join(root, 'target-%s-%s' % (i, k))
                    with open(target, 'w'):
                        pass
                    os.chmod(target, mode)
                    if kind == 'link':
                        os.symlink(target, p)
        for j in order:
            if j < len(dirs):
                path.append(os.path.join(root, str(j)))
                kind, mode = dirs[j].get(name, ('dir', 0))
                if kind in ('file', 'link') and mode & 0o111:
                    want.append(os.path.join(root, str(j), name))
            else:
                path.append(os.path.join(root, 'nonexistent') if j % 2 else os.path.join(root, '0', 'tool'))
        old = os.environ.get('PATH')
        os.environ['PATH'] = ':'.join(path)
        try:
            got = list(whereis(name))
            listed = [g for g in got if os.path.dirname(g) in path]
        finally:
            os.environ['PATH'] = old
        eq(got, want, 'found')
    return len(want) > 1


class SlowFile(io.FileIO):
    def readinto(self, buf):
        REAL_SLEEP(0.002)
        return super().readinto(memoryview(buf)[:16384])


class SlowPopen(subprocess.Popen):
    """A process whose output takes a while to be read"""
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        if self.stdout is not None and type(self.stdout) is io.BufferedReader:
            self.stdout = io.BufferedReader(SlowFile(os.dup(self.stdout.fileno()), 'r'))


SCRIPT = 'import sys\nn, fill, code, wait = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), float(sys.argv[4])\nsys.stdout.buffer.write((fill * (n // len(fill) + 1))[:n].encode(sys.argv[5]))\nsys.stdout.flush()\nimport time\ntime.sleep(wait)\nsys.exit(code)'


@prop.facet(st.tuples(st.sampled_from([0, 1, 100, 2047, 2048, 2049, 5000, 65537, 100000, 300001]), st.sampled_from(['a', 'ż', 'xż€', 'line\n']), st.sampled_from([0, 0, 1, 7]), st.sampled_from([None, None, 'utf8', 'utf8', 'utf-16-le', 'utf-16']), st.sampled_from([None, 0, 1, 7]),
                      st.sampled_from([(None, 0), (30, 0), ('30s', 0.05), (0.5, 20), (None, 0.2)]), st.booleans()), 'more than a pipe can hold, or split within a character', quick=25, thorough=400, hang_s=25)
def outputs(case):
    """Output of subprocesses of any size arrives as it was, and return codes and timeouts are told"""
    size, fill, code, encoding, expected, (timeout, wait), slow = case
    text = (fill * (size // len(fill) + 1))[:size]
    args = [sys.executable, '-S', '-E', '-c', SCRIPT, str(size), fill, str(code), str(wait), encoding or 'utf8']
    kwargs = {}
    if encoding is not None:
        kwargs['encoding'] = encoding
    if expected is not None:
        kwargs['expected_return_code'] = expected
    if timeout is not None:
        kwargs['timeout'] = timeout
    env = dict(os.environ, PYTHONIOENCODING='utf8', LC_ALL='C.UTF-8')
    want = text if encoding is not None else text.encode('utf8')
    with patched(subprocess, **({'Popen': SlowPopen} if slow else {})):
        run_outputs(args, env, kwargs, wait, expected, code, want)
    return size > 65536 or encoding is not None and size > 2048


def run_outputs(args, env, kwargs, wait, expected, code, want):
    started = S._real_monotonic()
    if wait == 20:
        raises(TimeoutError, call_and_return_stdout, args, env=env, **kwargs)
        check(S._real_monotonic() - started < 15, 'did not kill the process')
    elif expected is not None and expected != code:
        e = raises(ProcessFailed, call_and_return_stdout, args, env=env, **kwargs)
        eq(e.rc, code, 'return code')
        check(e.stdout_so_far == want, 'output that comes with a failure differs')
    else:
        got = call_and_return_stdout(args, env=env, **kwargs)
        check(type(got) is type(want), 'got %s', type(got))
        check(got == want, 'output differs, %s instead of %s', len(got), len(want))
