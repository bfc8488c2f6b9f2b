"""P29: file helpers keep content intact, find exactly the files asked for and touch nothing else"""
import contextlib
import io
import os
import re

from hypothesis import strategies as st

from harness import Property, check, eq, raises, scratch_dir, Violation

from satella.files import read_re_sub_and_write, find_files, split, read_in_file, write_to_file, write_out_file_if_different, make_noncolliding_name, try_unlink, \
    DevNullFilelikeObject, read_lines, AutoflushFile, jump_to_directory
from satella.os import safe_listdir

prop = Property('P29', ['paths are POSIX paths'])

ENC = ['utf-8', 'utf-16', 'utf-16-le', 'utf-32', 'iso-8859-2', 'cp1250', 'ascii', 'utf-8-sig']
text = st.text(st.sampled_from('abc \t\n\r\x0b\x0c\x1c\x85\u2028ąż€\U0001f600\ufeff\0'), max_size=12)
plain = st.text('ab \n', max_size=8)


def raw(path):
    with open(path, 'rb') as f:
        return f.read()


def tree_of(root):
    """Everything in a directory"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = os.readlink(p) if os.path.islink(p) else None if os.path.isdir(p) else (raw(p), os.stat(p).st_mtime_ns, os.stat(p).st_ino)
    return out


@prop.facet(st.tuples(st.sampled_from(ENC), st.lists(st.tuples(st.sampled_from(['write', 'different', 'different', 'read', 'foreign']), st.one_of(st.binary(max_size=6), text, plain, plain), st.sampled_from(['f', 'f', 'g', 'dir'])), max_size=8),
                      st.one_of(st.none(), st.just('default'))), 'a file was written and read back', quick=400)
def contents(case):
    """write_to_file, read_in_file, write_out_file_if_different"""
    encoding, ops, default = case
    useful = 0
    with scratch_dir() as root:
        os.mkdir(os.path.join(root, 'dir'))
        disk = {}
        for op, data, name in ops:
            path = os.path.join(root, name)
            enc = encoding
            if isinstance(data, bytes):
                enc = None
                if encoding in ('utf-16', 'utf-32', 'utf-8-sig'):
                    continue    # what readers of these make of files without a mark is not for us to say
            try:
                encoded = data if enc is None else data.encode(enc)
            except UnicodeEncodeError:
                continue
            if name == 'dir':
                if op == 'read':
                    if default is None:
                        raises(FileNotFoundError, read_in_file, path, enc)
                    else:
                        eq(read_in_file(path, enc, default), default, 'a directory')
                continue
            if op in ('write', 'foreign'):
                if op == 'write':
                    eq(write_to_file(path, data, enc), None, 'write_to_file')
                else:
                    with open(path, 'wb') as f:
                        f.write(encoded)
                disk[name] = encoded
            elif op == 'different':
                old = disk.get(name)
                same = old is not None
                if same:
                    try:
                        same = (old if enc is None else old.decode(enc)) == data
                    except UnicodeDecodeError:
                        continue
                    useful += same
                before = tree_of(root)
                eq(write_out_file_if_different(path, data, enc), not same, 'write_out_file_if_different(%r, %r) upon %r' % (data, enc, old))
                if same:
                    eq(tree_of(root), before, 'the file and its modification time')
                else:
                    disk[name] = encoded
            else:
                if name not in disk:
                    if default is None:
                        raises(FileNotFoundError, read_in_file, path, enc)
                    else:
                        eq(read_in_file(path, enc, default), default, 'a missing file')
                    eq(read_in_file(path, enc, None), None, 'a missing file with None as default')
                else:
                    try:
                        want = disk[name] if enc is None else disk[name].decode(enc)
                    except UnicodeDecodeError:
                        continue
                    eq(read_in_file(path, enc, **({} if default is None else {'default': default})), want, 'read_in_file(%r)' % (enc,))
                    useful += 1
            for n, b in disk.items():
                eq(raw(os.path.join(root, n)), b, 'contents of %s' % n)
            eq({n for n in os.listdir(root)}, set(disk) | {'dir'}, 'files')
    return useful


line = st.text('ab \tż', max_size=5)


@prop.facet(st.tuples(st.lists(st.tuples(line, st.sampled_from(['\n', '\r\n', '\n\n'])), max_size=6), line, st.booleans(), st.sampled_from(['utf-8', 'utf-16', 'iso-8859-2'])), 'some lines are empty', quick=200)
def lines(case):
    """read_lines"""
    ls, last, delete, enc = case
    content = ''.join(a + b for a, b in ls) + last
    want = [l.strip() for l in content.split('\n')]
    if not content.split('\n')[-1]:
        want.pop()
    useful = '' in want
    if delete:
        want = [l for l in want if l]
    with scratch_dir() as root:
        p = os.path.join(root, 'f')
        write_to_file(p, content, enc)
        got = read_lines(p, **dict({} if delete else {'delete_empty_lines': False}, **({} if enc == 'utf-8' else {'encoding': enc})))
        eq(got, want, 'lines of %r' % content)
    return useful


@prop.facet(st.tuples(st.text('ab1 \n{}', max_size=15), st.sampled_from(['a', 'a+', r'\{(.*?)\}', r'(?m)^b', 'x', '', r'(a)(b)?']), st.sampled_from(['', 'a', 'bb', r'[\g<0>]', 'call', 'boom']), st.booleans()), 'something was replaced', quick=200)
def substituting(case):
    """read_re_sub_and_write"""
    content, pattern, repl, compiled = case
    fun = repl
    if repl == 'call':
        fun = lambda m: m.group(0).upper() + '!'    # noqa: E731
    elif repl == 'boom':
        def fun(m):
            raise LookupError('no')
    with scratch_dir() as root:
        p = os.path.join(root, 'f')
        write_to_file(p, content.encode())
        try:
            want = re.sub(pattern, fun, content)
        except LookupError:
            raises(LookupError, read_re_sub_and_write, p, pattern, fun)
            want = content      # and not an empty file
        else:
            read_re_sub_and_write(p, re.compile(pattern) if compiled else pattern, fun)
        eq(raw(p), want.encode(), 'contents')
        return want != content


comp = st.sampled_from(['a', 'b', '.', '..', '~', 'x.txt', '.rc', ' ', 'ż', 'a.b.c', 'c:', '\\'])


@prop.facet(st.tuples(st.lists(comp, min_size=1, max_size=6), st.booleans()), 'the path is an absolute one, or has many parts', quick=300, hang_s=40)
def splitting(case):
    """split"""
    parts, absolute = case
    if any('\\' in p for p in parts[1:]) and len(parts) > 2:
        parts = [p for p in parts if '\\' not in p] or ['a']     # these split() counts among separators
    if any(c == d for c, d in zip(parts, 'c:')):
        parts = parts + ['a']
    path = ('/' if absolute else '') + '/'.join(parts)
    got = split(path)
    eq(os.path.join(*got), path, 'os.path.join(*split(%r))' % path)
    rest = [p for p in got if p != '' and p != '/']
    if '\\' not in path and len(parts) > 1:
        eq([p.rstrip('/') if i == 0 else p for i, p in enumerate(rest)], parts, 'components of %r' % path)
    return absolute or len(parts) > 2


names = st.sampled_from(['f', 'f.txt', '.rc', 'a.b.txt', 'f.', 'f.1.txt', 'f.1', 'dir.d/f', 'dir.d/f.txt', 'ż.x'])


@prop.facet(st.tuples(names, st.sets(st.integers(0, 5)), st.booleans()), 'a name collided', quick=200)
def noncolliding(case):
    """make_noncolliding_name"""
    name, taken, real = case
    d, fn = os.path.split(name)

    def nth(i):
        if not i:
            return name
        if '.' in fn:
            stem, ext = fn.rsplit('.', 1)
            return os.path.join(d, '%s.%s.%s' % (stem, i, ext))
        return os.path.join(d, '%s.%s' % (fn, i))

    want = next(nth(i) for i in range(9) if i not in taken)
    if real:
        with scratch_dir() as root:
            os.mkdir(os.path.join(root, 'dir.d'))
            for i in taken:
                write_to_file(os.path.join(root, nth(i)), b'')
            before = tree_of(root)
            eq(make_noncolliding_name(os.path.join(root, name)), os.path.join(root, want), 'make_noncolliding_name')
            eq(tree_of(root), before, 'files')
    else:
        eq(make_noncolliding_name(name, {nth(i) for i in taken}.__contains__), want, 'make_noncolliding_name')
    return 0 in taken


fs = st.recursive(st.sampled_from(['file', 'file', 'link', 'dirlink']), lambda c: st.dictionaries(st.sampled_from(['a', 'b', 'c.txt', 'a.txt']), c, max_size=3), max_leaves=7)
root_s = st.dictionaries(st.sampled_from(['a', 'b', 'c.txt', 'a.txt']), fs, max_size=4)


def build(path, entries, links=True):
    for n, v in entries.items():
        p = os.path.join(path, n)
        if isinstance(v, dict):
            os.mkdir(p)
            build(p, v, links)
        elif v == 'file' or not links and v == 'dirlink':
            write_to_file(p, b'x')
        elif v == 'link':
            os.symlink('/nonexistent/target', p)
        else:
            os.symlink(os.path.join(path.split('/tree')[0], 'outside'), p)


def all_files(entries, prefix=()):
    for n, v in entries.items():
        if isinstance(v, dict):
            yield from all_files(v, prefix + (n,))
        else:
            yield prefix + (n,)


@contextlib.contextmanager
def jump_home():
    home = os.getcwd()
    try:
        yield
    finally:
        os.chdir(home)


@prop.facet(st.tuples(root_s, st.sampled_from([r'(.*)', r'(.*)\.txt$', 'a', '^a$', r'(.*)a/', r'pre/', r'b/(.*)', r'(.*)c', 'z']), st.sampled_from([None, 'pre', 'pre/x', '']), st.booleans(), st.booleans(), st.booleans(), st.booleans()),
            'files were found and others were not', quick=500)
def finding(case):
    """find_files"""
    entries, pattern, prefix, subdirs, entire, with_path, relative = case
    with scratch_dir() as base, jump_home():
        root = os.path.join(base, 'tree')
        os.mkdir(root)
        build(root, entries, links=False)
        if relative:
            os.chdir(base)
            root = 'tree'
        front = prefix
        if with_path:
            front = root if prefix is None else os.path.join(prefix, root)
        want, every = [], 0
        for parts in all_files(entries):
            if not subdirs and len(parts) > 1:
                continue
            every += 1
            path = os.path.join(*parts) if front is None else os.path.join(front, *parts)
            if re.match(pattern, path if entire else parts[-1]):
                want.append(path)
        kw = {}
        if prefix is not None:
            kw['prefix_with'] = prefix
        if not subdirs:
            kw['scan_subdirectories'] = False
        if entire:
            kw['apply_wildcard_to_entire_path'] = True
        if not with_path:
            kw['prefix_with_path'] = False
        got = list(find_files(root, pattern, **kw))
        if not subdirs:     # whether directories are among files is left open here
            dirs = {n if front is None else os.path.join(front, n) for n, v in entries.items() if isinstance(v, dict)}
            got = [p for p in got if p not in dirs]
        eq(sorted(got), sorted(want), 'find_files(%r, %r)' % (pattern, kw))
        return want and len(want) < every


@prop.facet(st.tuples(root_s, st.lists(st.sampled_from(['a', 'b', 'c.txt', 'a.txt', 'a/b', 'b/a', 'a/a.txt', 'a/../b', 'missing']), max_size=4)), 'something was deleted', quick=300)
def unlinking(case):
    """try_unlink, safe_listdir"""
    entries, paths = case
    useful = 0
    with scratch_dir() as base:
        root = os.path.join(base, 'tree')
        os.mkdir(root)
        os.mkdir(os.path.join(base, 'outside'))
        write_to_file(os.path.join(base, 'outside', 'precious'), b'data')
        build(root, entries)
        for p in paths:
            path = os.path.join(root, p)
            try:
                want = os.listdir(path)
            except FileNotFoundError:
                want = []
            except NotADirectoryError:
                want = None
            if want is not None:
                eq(sorted(safe_listdir(path)), sorted(want), 'safe_listdir')
            before = tree_of(base)
            existed = os.path.lexists(path)
            got = try_unlink(path)
            after = tree_of(base)
            if not existed:
                eq(got, False, 'try_unlink of what is not there')
            check(got is True or got is False, 'try_unlink returned %r', got)
            eq(got, existed and not os.path.lexists(path), 'try_unlink')
            if existed and not os.path.islink(path) or got:
                eq(got, True, 'try_unlink of %r' % before.get(p))
            rel = os.path.relpath(os.path.normpath(path), base)
            eq(after, {k: v for k, v in before.items() if not (got and (k == rel or k.startswith(rel + '/')))}, 'what was left')
            useful += got
    return useful


@prop.facet(st.tuples(st.sampled_from([False, True]), st.lists(st.one_of(st.tuples(st.just('write'), st.one_of(plain, st.binary(max_size=5), st.just(5), st.none())), st.tuples(st.sampled_from(['read', 'truncate']), st.one_of(st.none(), st.integers(0, 9))),
                                                                         st.tuples(st.just('writelines'), st.lists(plain, max_size=3)),
                                                                         st.tuples(st.just('seek'), st.one_of(st.integers(0, 9), st.tuples(st.integers(0, 9), st.sampled_from([0, 1, 2])))), st.tuples(st.sampled_from(['tell', 'flush', 'close', 'seekable', 'writable', 'exit']), st.none())), max_size=8)),
            'something was written, or the file was closed', quick=200)
def devnull(case):
    """DevNullFilelikeObject"""
    binary, ops = case
    f = DevNullFilelikeObject(binary=True) if binary else DevNullFilelikeObject()
    closed = False
    useful = 0
    for op, arg in ops:
        eq(f.closed, closed, 'closed')
        if op == 'writelines':
            if binary:
                arg = [x.encode() for x in arg]
            if closed:
                raises(ValueError, f.writelines, arg)
            else:
                eq(f.writelines(arg), None, 'writelines')
        elif op == 'exit':
            with f as g:
                check(g is f, '__enter__')
            closed = True
        elif op == 'close':
            f.close()
            closed = True
        elif closed:
            raises(ValueError, getattr(f, op), *(() if arg is None else arg if isinstance(arg, tuple) else (arg,)))
            useful += 1
        elif op == 'write':
            if isinstance(arg, bytes if binary else str):
                eq(f.write(arg), len(arg), 'write')
                useful += bool(arg)
            else:
                raises(TypeError, f.write, arg)
        else:
            got = getattr(f, op)(*(() if arg is None else arg if isinstance(arg, tuple) else (arg,)))
            if op == 'read':
                eq(got, b'' if binary else '', 'read')
            elif op in ('tell', 'seek', 'truncate'):
                eq(got, 0, op)
            elif op in ('seekable', 'writable'):
                eq(got, True, op)
    return useful


MODES = ['w', 'wb', 'a', 'ab'] + ['a+', 'w+', 'wb+', 'ab+'] * 3
BAD_MODES = ['r', 'r+', 'x', '', 'q', 'rb']


@prop.facet(st.tuples(st.one_of(st.none(), st.binary(max_size=6).map(lambda b: bytes(97 + x % 26 for x in b))), st.sampled_from(MODES + MODES + BAD_MODES[:4]),
                      st.lists(st.integers(0, 19).flatmap(lambda i: st.tuples(st.just('write'), st.text('abc\n', max_size=5)) if i < 6 else st.tuples(st.just('foreign'), st.text('xyz', max_size=3)) if i < 7
                                                          else st.tuples(st.just('seek'), st.integers(0, 12), st.sampled_from([0, 0, 0, 2])) if i < 9 else st.tuples(st.sampled_from(['read', 'readat', 'readat']), st.one_of(st.none(), st.integers(0, 5)), st.integers(0, 4)) if i < 15
                                                          else st.tuples(st.just('readall')) if i < 16 else st.tuples(st.just('truncate'), st.one_of(st.none(), st.integers(0, 8))) if i < 18
                                                          else st.tuples(st.sampled_from(['close', 'unlink', 'unlink']))), min_size=2, max_size=14)), 'something was written and read', quick=500)
def autoflush(case):
    """AutoflushFile"""
    initial, mode, ops = case
    binary = 'b' in mode
    reads, writes = 0, 0
    with scratch_dir() as root:
        path = os.path.join(root, 'f')
        if initial is not None:
            write_to_file(path, initial)
        kw = {} if binary else {'encoding': 'utf-8'}
        if mode in BAD_MODES:
            raises(ValueError, AutoflushFile, path, mode, **kw)
            eq(os.path.exists(path) and raw(path), False if initial is None else initial, 'contents after failing to open')
            return False
        f = AutoflushFile(path, mode, **kw)
        disk = initial or b''
        if mode[0] == 'w':
            disk = b''
        pos = len(disk)
        closed = False
        enc = (lambda s: s.encode()) if binary else (lambda s: s)
        for op in ops:
            arg = op[1] if len(op) > 1 else None
            if op[0] == 'readat':
                if closed or '+' not in mode:
                    continue
                pos = min(op[2], len(disk))
                eq(f.seek(pos), pos, 'seek')
                op = 'read', arg
            if op[0] == 'foreign':
                with open(path, 'ab') as g:
                    g.write(arg.encode())
                disk += arg.encode()
            elif op[0] == 'unlink':
                try_unlink(path)
                disk = b''
                if closed:
                    break
                eq(f.write(enc('n')), 1, 'write')
                disk, pos = b'n', 1
            elif closed:
                if op[0] != 'close':
                    raises(ValueError, getattr(f, op[0]), *((enc(arg),) if op[0] == 'write' else (arg,) if arg is not None else ()))
            elif op[0] == 'close':
                f.close()
                closed = True
            elif op[0] == 'write':
                eq(f.write(enc(arg)), len(arg), 'write')
                disk += arg.encode()
                if arg:     # where an empty write leaves the file is left open
                    pos = len(disk)
                else:
                    f.seek(0, 2)
                    pos = len(disk)
                writes += 1
            elif op[0] == 'seek':
                if op[2] == 2:
                    eq(f.seek(0, 2), len(disk), 'seek to the end')
                    pos = len(disk)
                else:
                    pos = min(arg, len(disk))
                    eq(f.seek(pos), pos, 'seek')
            elif op[0] == 'truncate':
                if arg is None:
                    pos = f.seek(min(pos, len(disk)))
                n = pos if arg is None else arg
                if n <= len(disk):      # growing files is left alone
                    eq(f.truncate(*(() if arg is None else (arg,))), n, 'truncate')
                    disk = disk[:n]
            elif '+' not in mode:
                raises(io.UnsupportedOperation, getattr(f, op[0]))
            else:
                want = disk[pos:] if arg is None else disk[pos:pos + arg]
                eq(getattr(f, op[0])(*(() if arg is None else (arg,))), want if binary else want.decode(), '%s at %s of %r' % (op[0], pos, disk))
                if op[0] == 'readall' or arg is None:
                    pos = max(pos, len(disk))
                else:
                    pos += len(want)
                reads += bool(want)
            eq(raw(path), disk, 'what others read after %r' % (op,))
            check(not any(os.path.realpath('/proc/self/fd/' + fd) == os.path.realpath(path) for fd in os.listdir('/proc/self/fd')), 'the file is left open after %s', op[0])
    return reads and writes


@prop.facet(st.lists(st.tuples(st.sampled_from(['a', 'b/c', 'a/d', '.', '../x/y']), st.booleans(), st.booleans(), st.sampled_from([None, None, 'moved', 'later'])), min_size=1, max_size=4), 'jumps were nested', quick=200)
def jumping(jumps):
    """jump_to_directory"""
    home = os.getcwd()
    try:
        with scratch_dir() as base:
            root = os.path.join(base, 'one', 'two')
            os.makedirs(root)
            os.chdir(root)

            def go(i):
                if i == len(jumps):
                    return
                path, absolute, fail, quirk = jumps[i]
                before = os.getcwd()
                target = os.path.normpath(os.path.join(before, path))
                check(target.startswith(base + '/'), 'out of the scratch directory: harness')
                jump = jump_to_directory(target if absolute or quirk == 'later' else path)
                check(os.path.isdir(target), 'the directory was not created')
                if quirk == 'later':        # made here, entered somewhere else
                    os.makedirs(os.path.join(base, 'elsewhere'), exist_ok=True)
                    os.chdir(os.path.join(base, 'elsewhere'))
                    before = os.getcwd()
                eq(os.getcwd(), before, 'current directory prior to entering')
                try:
                    with jump:
                        eq(os.getcwd(), target, 'current directory')
                        if quirk == 'moved':        # changing it within does not change where to return
                            os.makedirs(os.path.join(base, 'another', 'one'), exist_ok=True)
                            os.chdir(os.path.join(base, 'another', 'one'))
                        go(i + 1)
                        if fail:
                            raise LookupError('planned')
                except LookupError:
                    check(fail, 'LookupError')
                else:
                    check(not fail, 'an exception was swallowed')
                eq(os.getcwd(), before, 'directory afterwards')
            go(0)
            os.chdir(home)
    finally:
        os.chdir(home)
    return len(jumps) > 1
