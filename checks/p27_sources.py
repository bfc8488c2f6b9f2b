"""P27: configuration sources provide what they were given, combined as declared, or fail with ConfigurationError"""
import codecs
import copy
import json
import logging
import os
import warnings

import requests
import toml
import ujson
import yaml
from hypothesis import strategies as st

from harness import Property, check, eq, raises, scratch_dir, patched, Violation

from satella.configuration import sources
from satella.configuration.sources import StaticSource, EnvironmentSource, EnvVarsSource, FileSource, DirectorySource, AlternativeSource, OptionalSource, MergingSource, \
    BuildObjectFrom, JSONSource, YAMLSource, TOMLSource, HTTPJSONSource, load_source_from_dict, load_source_from_list
from satella.exceptions import ConfigurationError

prop = Property('P27', ['ujson, pyyaml and toml are correct parsers'])
logging.getLogger('satella').setLevel(logging.CRITICAL)


class Fail(Exception):
    pass


ENVIRON = {'VF_A': 'text', 'VF_B': '12', 'VF_J': '{"a": {"x": 1}, "l": [1]}', 'VF_L': '[1, 2]', 'VF_BAD': '{"a": ', 'VF_E': '', 'VF_N': '-7'}
scalar = st.one_of(st.none(), st.booleans(), st.integers(-3, 9), st.sampled_from(['', 'a', '12', 'zażółć', 'type: x']))
conf_v = st.recursive(scalar, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from('abcx'), c, max_size=3)), max_leaves=6)
conf = st.dictionaries(st.sampled_from(['a', 'b', 'c', 'l']), conf_v, max_size=3)
tomlable = st.dictionaries(st.sampled_from(['a', 'b', 'c', 'x']), st.one_of(st.integers(-3, 9), st.booleans(), st.sampled_from(['a', 'zażółć', '12']), st.lists(st.integers(0, 5), max_size=3),
                                                                           st.dictionaries(st.sampled_from('xyz'), st.integers(0, 5), max_size=2)), max_size=3)
garbage = st.one_of(st.text('{}[]":,=#- \nab01\t', max_size=25), st.sampled_from(['', '[1, 2]', '[]', '[["a", 1]]', '- [a, 1]', '""', 'false', '0', 'text', '{"a": ', 'a: [', '[sec', '5', 'null', 'a = \n', '"a" = 5 = 6', '!!python/nothing x', '&a *b']))
text = st.one_of(conf.map(json.dumps), conf.map(lambda c: yaml.dump(c)), tomlable.map(toml.dumps), garbage)
fmt = st.sampled_from(['JSONSource', 'YAMLSource', 'TOMLSource'])
encoding = st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16', 'ascii', 'nosuch'])
on_fail = st.sampled_from([0, 0, 1])

leaf = st.one_of(
    st.tuples(st.just('static'), conf), st.tuples(st.just('static'), conf), st.tuples(st.just('static'), conf),
    st.tuples(st.just('env'), st.sampled_from(sorted(ENVIRON) + ['VF_MISSING', 'VF_B', 'VF_B', 'VF_N']), st.sampled_from([None, 'a', 'b']), st.sampled_from([None, None, 'int', 'int', 'len'])),
    st.tuples(st.just('envjson'), st.sampled_from(sorted(ENVIRON) + ['VF_MISSING'])),
    st.tuples(st.just('format'), fmt, text, st.booleans(), encoding),
    st.tuples(st.just('file'), st.sampled_from(['missing', '.', 'one', 'two', 'sub/three']), st.sampled_from([None, ('JSONSource',), ('TOMLSource', 'JSONSource')]), encoding))
tree = st.recursive(leaf, lambda c: st.one_of(
    st.tuples(st.just('alt'), st.lists(c, max_size=3)), st.tuples(st.just('optional'), c),
    st.tuples(st.just('merge'), st.lists(c, max_size=4), on_fail, st.booleans()), st.tuples(st.just('merge'), st.lists(c, min_size=2, max_size=4), on_fail, st.booleans()),
    st.tuples(st.just('object'), st.sampled_from(['a', 'b', 'key']), c)), max_leaves=6)


def encode(s, enc):
    try:
        return s.encode(enc)
    except (UnicodeEncodeError, LookupError):
        return s.encode('utf-8')


def parse(name, data, enc):
    try:
        if isinstance(data, bytes):
            codecs.lookup(enc)
            data = data.decode(enc)
        v = {'JSONSource': ujson.loads, 'YAMLSource': lambda d: yaml.load(d, Loader=yaml.Loader), 'TOMLSource': toml.loads}[name](data)
    except Exception:
        raise Fail()
    if not isinstance(v, dict):
        raise Fail()
    return v


def merged(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (merged(a[k], b[k]) if k in a and k in b else a[k] if k in a else b[k]) for k in list(a) + [k for k in b if k not in a]}
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def model(s, files, root):
    kind = s[0]
    if kind == 'static':
        return s[1]
    if kind == 'env':
        if s[1] not in ENVIRON:
            raise Fail()
        v = ENVIRON[s[1]]
        if s[3] == 'len':
            v = len(v)
        elif s[3] == 'int':
            try:
                v = abs(int(v))
            except ValueError:
                raise Fail()
        return {s[2] or s[1]: v}
    if kind == 'envjson':
        if s[1] not in ENVIRON:
            raise Fail()
        return parse('JSONSource', ENVIRON[s[1]], None)
    if kind == 'format':
        return parse(s[1], encode(s[2], s[4]) if s[3] else s[2], s[4])
    if kind == 'file':
        if s[1] not in files:
            raise Fail()
        for name in s[2] or ('JSONSource', 'YAMLSource', 'TOMLSource'):
            try:
                return parse(name, files[s[1]], s[3])
            except Fail:
                pass
        raise Fail()
    if kind == 'alt':
        for c in s[1]:
            try:
                return model(c, files, root)
            except Fail:
                pass
        raise Fail()
    if kind == 'optional':
        try:
            return model(s[1], files, root)
        except Fail:
            return {}
    if kind == 'merge':
        out, good = {}, 0
        for c in s[1]:
            try:
                out = merged(out, model(c, files, root))
                good += 1
            except Fail:
                if s[2] == 0:
                    raise
        if s[1] and not good and s[3]:
            raise Fail()
        return out
    if kind == 'object':
        return {s[1]: model(s[2], files, root)}


def build(s, root, statics):
    kind = s[0]
    if kind == 'static':
        c = copy.deepcopy(s[1])
        statics.append((c, s[1]))
        return StaticSource(c)
    if kind == 'env':
        return EnvironmentSource(s[1], s[2], *([] if s[3] is None else [{'int': lambda v: abs(int(v)), 'len': len}[s[3]]]))
    if kind == 'envjson':
        return EnvVarsSource(s[1])
    if kind == 'format':
        return getattr(sources, s[1])(encode(s[2], s[4]) if s[3] else s[2], s[4])
    if kind == 'file':
        return FileSource(os.path.join(root, s[1]), s[3], *([list(s[2])] if s[2] else []))
    if kind == 'alt':
        return AlternativeSource(*[build(c, root, statics) for c in s[1]])
    if kind == 'optional':
        return OptionalSource(build(s[1], root, statics))
    if kind == 'merge':
        return MergingSource(*[build(c, root, statics) for c in s[1]], on_fail=s[2], fail_if_no_sources_are_correct=s[3])
    return BuildObjectFrom(s[1], build(s[2], root, statics))


def to_json(s, root, variant):
    kind = s[0]
    if kind == 'static':
        return {'type': 'StaticSource', 'arg': s[1]} if variant else {'type': 'StaticSource', 'args': [s[1]]}
    if kind == 'env':
        out = {'type': 'EnvironmentSource', 'args': [s[1]] + ([s[2]] if s[2] else [])}
        if s[3] == 'len':
            out['cast_to'] = {'type': 'lambda', 'operation': 'len(x)'}
        elif s[3] == 'int' and variant:
            out['cast_to'] = {'type': 'import', 'module': 'operator', 'attribute': 'abs', 'cast_before': {'type': 'lambda', 'operation': 'int(x)'}}
        elif s[3] == 'int':
            out['cast_to'] = {'type': 'lambda', 'operation': 'abs(int(x))'}
        return out
    if kind == 'envjson':
        return {'type': 'EnvVarsSource', 'arg': s[1]} if variant else {'type': 'EnvVarsSource', 'env_name': s[1]}
    if kind == 'format':
        root = s[2]
        if s[3]:
            root = {'type': 'binary', 'value': s[2], 'encoding': s[4]}
        return {'type': s[1], 'root': root, 'encoding': s[4]}
    if kind == 'file':
        out = {'type': 'FileSource', 'path': os.path.join(root, s[1]), 'encoding': s[3]}
        if s[2]:
            out['interpret_as'] = list(s[2])
        return out
    if kind == 'alt':
        return {'type': 'AlternativeSource', 'args': [to_json(c, root, variant) for c in s[1]]}
    if kind == 'optional':
        if variant:
            return dict(to_json(s[1], root, variant), optional=True)
        return {'type': 'OptionalSource', 'arg': to_json(s[1], root, variant)}
    if kind == 'merge':
        return {'type': 'MergingSource', 'args': [to_json(c, root, variant) for c in s[1]], 'on_fail': s[2], 'fail_if_no_sources_are_correct': s[3]}
    return {'type': 'BuildObjectFrom', 'key': s[1], 'child': to_json(s[2], root, variant)}


def encodable(s):
    """Whether bytes in the tree can be spelled in JSON"""
    if s[0] == 'format' and s[3]:
        return s[4] != 'nosuch' and encode(s[2], s[4]) == s[2].encode(s[4], 'replace')
    return all(encodable(c) for e in s if isinstance(e, (list, tuple)) for c in (e if isinstance(e, list) else [e]) if isinstance(c, tuple) and c and isinstance(c[0], str) and c[0] in
               ('format', 'alt', 'optional', 'merge', 'object'))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b or a != a and b != b


def provide(source, want, what):
    try:
        got = 'ok', source.provide()
    except ConfigurationError:
        got = 'fail', None
    except Exception as e:
        raise Violation('%s failed with %r instead of ConfigurationError' % (what, e))
    check(got[0] == want[0], '%s: %s, expected %s', what, got, want)
    check(same(got[1], want[1]), '%s: %s, expected %s', what, got[1], want[1])
    check(isinstance(repr(source), str), 'repr()')
    return got


files_s = st.fixed_dictionaries({}, optional={n: st.tuples(text, encoding) for n in ('one', 'two', 'sub/three')})


def fields(s):
    """Number of combined sources"""
    return 1 + sum(fields(c) for e in s[1:] if isinstance(e, (list, tuple)) for c in (e if isinstance(e, list) else [e]) if isinstance(c, tuple) and c and isinstance(c[0], str))


@prop.facet(st.tuples(tree, files_s, st.booleans()), 'two sources or more were combined', quick=2500)
def combining(case):
    examine(*case)
    return fields(case[0]) > 2


@prop.facet(st.tuples(st.tuples(st.just('file'), st.just('one'), st.sampled_from([None, ('JSONSource',), ('YAMLSource',), ('TOMLSource', 'JSONSource')]), encoding),
                      st.fixed_dictionaries({'one': st.tuples(st.one_of(text, garbage), encoding)}), st.booleans()), 'the file has more than five bytes', quick=600)
def reading(case):
    """A single file, with any contents"""
    examine(*case)
    return len(case[1]['one'][0]) > 5


def examine(s, files, variant):
    files = {k: encode(t, e) for k, (t, e) in files.items()}
    with scratch_dir() as root:
        os.mkdir(os.path.join(root, 'sub'))
        for name, data in files.items():
            with open(os.path.join(root, name), 'wb') as f:
                f.write(data)
        env = {k: v for k, v in os.environ.items() if not k.startswith('VF_')}
        with patched(os, environ=dict(env, **ENVIRON)), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                want = 'ok', model(s, files, root)
            except Fail:
                want = 'fail', None
            statics = []
            src = build(s, root, statics)
            for _ in range(2):
                provide(src, want, 'source %r' % (s,))
                for now, before in statics:
                    check(same(now, before), 'static configuration was altered from %r to %r', before, now)
            if encodable(s):
                j = to_json(s, root, variant)
                before = copy.deepcopy(j)
                try:
                    src = load_source_from_dict(j)
                except ConfigurationError as e:
                    raise Violation('failed to load %r: %r' % (j, e))
                check(same(j, before), 'definition was altered to %r', j)
                provide(src, want, 'source loaded from %r' % (j,))
                check(same(j, before), 'definition was altered to %r', j)
                if s[0] == 'merge' and s[2] == 0 and s[3]:
                    provide(load_source_from_list(j['args']), want, 'source loaded from list %r' % (j['args'],))


names = st.sampled_from(['a.json', 'b.json', 'c.yaml', 'd.toml', 'e', 'sub/f.json', 'sub/g.yaml', 'sub.json/h.json', 'sub/deep/i.json', 'empty/', 'fifo|', 'broken>'])


@prop.facet(st.tuples(st.dictionaries(names, st.sampled_from(['good'] * 7 + ['bad', 'list']), min_size=3, max_size=7), st.sampled_from([True, True, False]), st.sampled_from(['all', 'all', 'all', '.json', 'sub', 'not sub', 'none']),
                      on_fail, st.sampled_from(['utf-8', 'utf-16']), st.sampled_from(['.'] * 8 + ['sub', 'missing', 'a.json']), st.booleans()), 'at least two files were merged', quick=500)
def directories(case):
    """DirectorySource: each of the files selected, and none else, is merged"""
    files, subdirs, which, fail, enc, where, by_json = case
    with scratch_dir() as root:
        good = {}
        for i, (name, kind) in enumerate(sorted(files.items())):
            path = os.path.join(root, name.rstrip('/|>'))
            os.makedirs(path if name.endswith('/') else os.path.dirname(path), exist_ok=True)
            if name[-1] == '|':
                os.mkfifo(path)
            elif name[-1] == '>':
                os.symlink('/nonexistent', path)
            if name[-1] in '/|>':
                continue
            v = {'k%d' % i: i, 'shared': {'s%d' % i: [i, -i]}}
            good[name] = v if kind == 'good' else None
            with open(path, 'w', encoding=enc) as f:
                f.write('{"a' if kind == 'bad' else ['[1, 2]', '[]', '[["a", 1]]'][i % 3] if kind == 'list' else toml.dumps(v) if name.endswith('.toml') else yaml.dump(v) if name.endswith('.yaml') else json.dumps(v))
        base = os.path.join(root, where) if where != '.' else root
        pred = {'all': lambda p: True, '.json': lambda p: p.endswith('.json'), 'sub': lambda p: '/sub' in p[len(root):], 'not sub': lambda p: '/sub' not in p[len(root):], 'none': lambda p: False}[which]

        def selected(name):
            full = os.path.join(root, name)
            if not full.startswith(base + '/'):
                return False
            parts = full[len(base) + 1:].split('/')
            if len(parts) > 1 and not subdirs:
                return False
            return all(pred(os.path.join(base, *parts[:i + 1])) for i in range(len(parts)))
        chosen = [n for n in good if selected(n)]
        want = 'ok', {}
        if not os.path.isdir(base):
            if fail == 0:
                want = 'fail', None
        elif fail == 0 and any(good[n] is None for n in chosen) or chosen and all(good[n] is None for n in chosen):
            want = 'fail', None
        else:
            for n in chosen:
                want = 'ok', merged(want[1], good[n] or {})
        if by_json and which in ('all', '.json', 'none'):
            d = {'type': 'DirectorySource', 'args': [base], 'scan_subdirectories': subdirs, 'on_fail': fail, 'encoding': enc}
            if which != 'all':
                d['fname_filter'] = {'type': 'lambda', 'operation': 'x.endswith(".json")' if which == '.json' else 'False'}
            src = load_source_from_dict(d)
        else:
            src = DirectorySource(base, encoding=enc, fname_filter=pred, scan_subdirectories=subdirs, on_fail=fail)
        for _ in range(2):
            provide(src, want, 'directory source')
    return want[0] == 'ok' and len(chosen) > 1


@prop.facet(st.tuples(st.sampled_from([200, 201, 301, 399, 400, 404, 500, 'timeout', 'garbage']), st.sampled_from([None, 'GET', 'POST']), st.dictionaries(st.sampled_from(['timeout', 'headers']), st.integers(1, 5)), conf),
            'always', quick=150)
def http(case):
    status, method, kw, data = case
    calls = []

    def request(*args, **kwargs):
        calls.append((args, kwargs))
        if status == 'timeout':
            raise requests.Timeout()
        r = requests.Response()
        r.status_code = 200 if status == 'garbage' else status
        r._content = b'{"a' if status == 'garbage' else json.dumps(data).encode()
        return r
    src = HTTPJSONSource('http://host.invalid/', *([method] if method else []), **kw)
    with patched(requests, request=request):
        want = ('ok', data) if not isinstance(status, str) and status < 400 else ('fail', None)
        for i in range(2):
            provide(src, want, 'HTTP source with %s' % status)
            eq(calls[i], ((method or 'GET', 'http://host.invalid/'), kw), 'request made')
    return True


@prop.facet(st.tuples(st.sampled_from(['unknown', 'base', 'json', 'StaticSource']), st.sampled_from(['top', 'arg', 'kwarg', 'static']),
                      st.one_of(st.sampled_from(['Nothing', 'unknown', '']), conf_v)), 'a definition of unknown type was given', quick=200)
def definitions(case):
    """Dictionaries with an unrecognized type are passed as they are; unknown sources are rejected"""
    _, where, type_ = case
    if isinstance(type_, str) and (type_ in sources.__dict__ or type_ in ('lambda', 'binary', 'import')):
        return False
    d = {'type': type_, 'x': 1}
    if where == 'top':
        raises(ConfigurationError, load_source_from_dict, d)
        return True
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if where == 'kwarg':
            src = load_source_from_dict({'type': 'StaticSource', 'config': d})
        else:
            src = load_source_from_dict({'type': 'StaticSource', 'args': [d]})
    check(any(issubclass(x.category, UserWarning) for x in w), 'no warning was given')
    eq(src.provide(), d, 'configuration with a key called type')
    raises(ConfigurationError, load_source_from_dict, {'type': 'StaticSource'})
    raises(ConfigurationError, load_source_from_dict, {'args': [1]})
    return True
