"""P26: a configuration schema accepts exactly what it describes and converts it as declared"""
import copy
import http
import os
import re
from pathlib import Path

from hypothesis import strategies as st

from harness import Property, check, eq, raises, scratch_dir, Violation

from satella.coding.predicates import x
from satella.coding.structures import DictObject
from satella.configuration.schema import CheckerCondition, Descriptor, descriptor_from_dict, IPv4, Integer, String, Float, Boolean, File, Directory, \
    FileObject, DirectoryObject, Regexp, FileContents, register_custom_descriptor, Union, List, Dict, Caster, create_key
from satella.configuration.schema.base import must_be_one_of, must_be_type
from satella.exceptions import ConfigurationValidationError, ConfigurationSchemaError, ConfigurationError

prop = Property('P26')
REQ = 'required', 'strict'      # the latter has a default, which does not make it optional by itself


@register_custom_descriptor('vf_word')
class Word(Regexp):
    REGEXP = r'[a-c]+[0-9]?'


@register_custom_descriptor('vf_compiled')
class Compiled(Regexp):
    REGEXP = re.compile('(x|y)=[0-9]+', re.IGNORECASE)


class Invalid(Exception):
    pass


FILES = {'a.txt': b'content', 'b.txt': b'  padded \n', 'u.txt': '\u017c\u00f3\u0142w '.encode('utf-8'), 'bad.txt': b'\xff\xfe\xff', 'empty.txt': b''}
ENC = [None, 'utf-8', 'ascii', 'latin-1']
CASTS = {'int': ('int', None, int), 'float': ('float', None, float), 'status': ('http.HTTPStatus', None, http.HTTPStatus), 'expr': ('int', 'y(x)*2', lambda v: int(v) * 2),
         'join': ('str', 'y(x)+"!"', lambda v: str(v) + '!')}

plain = st.sampled_from(['int', 'float', 'str', 'bool', 'ipv4', 'any', 'vf_word', 'vf_compiled', 'file', 'dir', 'int', 'str', 'bool', 'float'])
leaf = st.one_of(st.tuples(plain), st.tuples(st.just('caster'), st.sampled_from(sorted(CASTS))), st.tuples(st.just('file_contents'), st.sampled_from(ENC), st.booleans()))
keys = st.sampled_from(['a', 'b', 'c', 'd', 'name'])
json_v = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-3, 400), st.floats(allow_nan=False), st.sampled_from(['', 'a', 'true', 'False', '12', '-3.5', 'x1', 'nan', 'inf', '1e3', ' 7 '])),
                      lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from('abcd'), c, max_size=3)), max_leaves=5)


def extend(c):
    return st.one_of(
        st.tuples(st.just('list'), st.one_of(st.none(), c)),
        st.tuples(st.just('union'), st.lists(c, max_size=3)),
        st.tuples(st.just('dict'), st.lists(st.tuples(keys, c, st.sampled_from(['required', 'strict', 'optional', 'default', 'both', 'null'])), max_size=4, unique_by=lambda k: k[0])))


schema_s = st.recursive(leaf, extend, max_leaves=6)


def dicts_only(s):
    return st.lists(st.tuples(keys, s, st.sampled_from(['required', 'strict', 'optional', 'default', 'both', 'null'])), min_size=1, max_size=4, unique_by=lambda k: k[0]).map(lambda ks: ('dict', ks))


octet = st.one_of(st.integers(0, 300), st.sampled_from([0, 255, 256, 1, 249, 199]))


def value_for(s, exact):
    """A value likely to be accepted by the schema; if exact it is accepted for sure (almost)"""
    kind = s[0]
    if kind == 'int' or kind == 'caster' and s[1] in ('int', 'expr', 'join', 'float'):
        v = st.one_of(st.integers(-5, 1000), st.integers(0, 99).map(str), st.floats(-10, 10), st.booleans())
        if kind == 'int' or s[1] in ('int', 'expr'):
            v = st.one_of(v, v, st.sampled_from(['1.5', '', 'nan', None, [], float('inf'), float('nan'), '0x10'])) if not exact else v
    elif kind == 'caster':
        v = st.sampled_from([200, 404, 500] if exact else [200, 404, 999, 'OK', None, []])
    elif kind == 'float':
        v = st.one_of(st.floats(-10, 10), st.integers(-5, 5), st.sampled_from(['1.5', '1e3', '-0.0', 'inf']))
    elif kind == 'bool':
        v = st.sampled_from([True, False, 'true', 'FALSE', 'True', 'fAlse', 0, 1, 2.5, None, [], {'a': 1}] + ([] if exact else ['', 'yes', '1', 'true ']))
    elif kind == 'ipv4':
        v = st.lists(octet if not exact else st.integers(0, 255), min_size=4, max_size=4 if exact else 5).map(lambda o: '.'.join(map(str, o)))
        if not exact:
            v = st.one_of(v, v.map(lambda a: a + ' '), v.map(lambda a: 'x' + a), v.map(lambda a: a.replace('.', ',', 1)), v.map(lambda a: a + '\n'), st.just('localhost'), st.just('1.2.3'))
    elif kind == 'vf_word':
        v = st.sampled_from(['a', 'abc', 'cab7', 'cab7!', 'aA'] + ([] if exact else ['', '7', 'xa', 'A']))
    elif kind == 'vf_compiled':
        v = st.sampled_from(['x=5', 'Y=12', 'x=5;', 'y=77 '] + ([] if exact else ['z=5', 'x=', ' x=5']))
    elif kind in ('file', 'file_contents'):
        v = st.sampled_from(['@a.txt', '@b.txt', '@u.txt', '@empty.txt'] + ([] if exact else ['@bad.txt', '@missing.txt', '@', '@sub', 'nothing', '', None, [], '@a.txt/x']))
    elif kind == 'dir':
        v = st.sampled_from(['@sub', '@'] + ([] if exact else ['@a.txt', '@missing', '', None]))
    elif kind == 'list':
        v = st.lists(json_v if s[1] is None else value_for(s[1], exact), max_size=3)
        v = st.one_of(v, v.map(tuple))
    elif kind == 'union':
        v = st.one_of(*[value_for(c, exact) for c in s[1]]) if s[1] else json_v
    elif kind == 'dict':
        required = {k: value_for(c, exact) for k, c, o in s[1] if o in REQ}
        optional = {k: value_for(c, exact) for k, c, o in s[1] if o not in REQ}
        if not exact:
            optional.update({k: json_v for k in 'ad' if k not in required})
        v = st.fixed_dictionaries(required, optional=dict(optional, unknown=json_v))
        if not exact:
            v = st.one_of(v, v, v, v, st.tuples(v, st.sampled_from(['a', 'b'])).map(lambda t: {k: w for k, w in t[0].items() if k != t[1]}))
    else:
        v = json_v
    return v if exact else st.one_of(v, v, v, v, v, v, json_v)


def place(v, root):
    """Replace placeholders with paths"""
    if isinstance(v, str) and v.startswith('@'):
        return os.path.join(root, v[1:])
    if isinstance(v, dict):
        return {k: place(w, root) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(place(w, root) for w in v)
    return v


def model(s, v, root):
    kind = s[0]
    try:
        if kind == 'int':
            return int(v)
        if kind == 'float':
            return float(v)
        if kind == 'str':
            return str(v)
        if kind == 'bool':
            if isinstance(v, str):
                return {'true': True, 'false': False}[v.lower()]
            return bool(v)
        if kind == 'ipv4':
            v = str(v)
            octets = v.split('.')
            if len(octets) != 4 or not all(re.fullmatch('[0-9]{1,3}', o) and int(o) < 256 for o in octets):
                raise Invalid()
            return v
        if kind in ('vf_word', 'vf_compiled'):
            m = re.match(r'[a-c]+[0-9]?' if kind == 'vf_word' else '(?i)(x|y)=[0-9]+', str(v))
            if m is None:
                raise Invalid()
            return m.group(0)
        if kind == 'any':
            return v
        if kind == 'caster':
            return CASTS[s[1]][2](v)
        if kind in ('file', 'dir', 'file_contents'):
            if not isinstance(v, str):
                raise Invalid()
            name = os.path.relpath(v, root) if v else None
            if kind == 'dir':
                if name not in ('sub', '.'):
                    raise Invalid()
                return 'directory', v
            if name not in FILES:
                raise Invalid()
            if kind == 'file':
                return 'file', v
            data = FILES[name]
            if s[1]:
                data = data.decode(s[1])
            return data.strip() if s[2] else data
    except (ValueError, TypeError, KeyError, OverflowError):
        raise Invalid()
    if kind == 'list':
        if not isinstance(v, (list, tuple)):
            raise Invalid()
        return [v_ if s[1] is None else model(s[1], v_, root) for v_ in v]
    if kind == 'union':
        for c in s[1]:
            try:
                return model(c, v, root)
            except Invalid:
                pass
        raise Invalid()
    if kind == 'dict':
        if not isinstance(v, dict):
            raise Invalid()
        out = dict(v)
        for k, c, o in s[1]:
            if k in v:
                out[k] = model(c, v[k], root)
            elif o in REQ:
                raise Invalid()
            else:
                out[k] = None if o in ('optional', 'null') else ['default', k]
        return out
    raise AssertionError(kind)


OPT = {'strict': {}, 'required': {}, 'optional': {'optional': True}, 'default': {'default': None}, 'null': {'default': None}, 'both': {'optional': True, 'default': None}}


def to_json(s, short=False):
    """JSON schema; the short form if available"""
    kind = s[0]
    if kind == 'caster':
        out = {'type': 'caster', 'cast_to': CASTS[s[1]][0]}
        if CASTS[s[1]][1]:
            out['expr'] = CASTS[s[1]][1]
        return out
    if kind == 'file_contents':
        if s[1] is None and not s[2]:
            return 'file_contents'
        out = {'type': 'file_contents', 'description': 'a comment'}
        if s[1]:
            out['encoding'] = s[1]
        if s[2]:
            out['strip_afterwards'] = True
        return out
    if kind == 'list':
        return {'type': 'list'} if s[1] is None else {'type': 'list', 'of': to_json(s[1])}
    if kind == 'union':
        return {'type': 'union', 'of': [to_json(c) for c in s[1]]}
    if kind == 'dict':
        out = {}
        for k, c, o in s[1]:
            v = to_json(c)
            if o not in REQ:
                if isinstance(v, str):
                    v = {'type': v}
                for name in OPT[o]:
                    v[name] = True if name == 'optional' else None if o == 'null' else ['default', k]
            out[k] = v
        return out
    if short and kind in ('int', 'float', 'str', 'bool'):
        return {'int': int, 'float': float, 'str': str, 'bool': bool}[kind]
    return kind


def nameable(s):
    """Optional nested dictionaries cannot be spelled in JSON"""
    if s[0] == 'dict':
        return all(nameable(c) and (c[0] != 'dict' or o in REQ) for _, c, o in s[1])
    if s[0] == 'union':
        return all(map(nameable, s[1]))
    if s[0] == 'list':
        return s[1] is None or nameable(s[1])
    return True


def to_descriptor(s):
    kind = s[0]
    if kind in ('int', 'float', 'str', 'bool', 'ipv4', 'any', 'vf_word', 'vf_compiled', 'file', 'dir'):
        return {'int': Integer, 'float': Float, 'str': String, 'bool': Boolean, 'ipv4': IPv4, 'any': Descriptor, 'vf_word': Word, 'vf_compiled': Compiled,
                'file': File, 'dir': Directory}[kind]()
    if kind == 'caster':
        return Caster(CASTS[s[1]][2])
    if kind == 'file_contents':
        return FileContents(s[1], s[2])
    if kind == 'list':
        return List() if s[1] is None else List(to_descriptor(s[1]))
    if kind == 'union':
        return Union(*map(to_descriptor, s[1]))
    return Dict([create_key(to_descriptor(c), k, o not in REQ, ['default', k] if o in ('default', 'both', 'strict') else None) for k, c, o in s[1]])


def same(got, want):
    if isinstance(want, tuple) and len(want) == 2 and want[0] in ('file', 'directory'):
        return type(got) is (FileObject if want[0] == 'file' else DirectoryObject) and str(got) == want[1]
    if type(got) is not type(want):
        return False
    if isinstance(want, list):
        return len(got) == len(want) and all(map(same, got, want))
    if isinstance(want, dict):
        return got.keys() == want.keys() and all(same(got[k], want[k]) for k in want)
    return got == want or got != got and want != want


def make_files(root):
    for name, content in FILES.items():
        with open(os.path.join(root, name), 'wb') as f:
            f.write(content)
    os.mkdir(os.path.join(root, 'sub'))


def run_schema(s, descriptor, values, root, what):
    accepted = rejected = 0
    for v in values:
        before = copy.deepcopy(v)
        try:
            want = 'ok', model(s, v, root)
        except Invalid:
            want = 'invalid', None
        try:
            got = 'ok', descriptor(v)
        except ConfigurationValidationError as e:
            got = 'invalid', None
            check(isinstance(e, ConfigurationSchemaError) and isinstance(e, ConfigurationError), 'class of the error')
        except Exception as e:
            raise Violation('%s: %r of %r failed with %r instead of ConfigurationValidationError' % (what, s, v, e))
        check(got[0] == want[0], '%s: %r upon %r: %s, expected %s', what, s, v, got, want)
        check(got[0] == 'invalid' or same(got[1], want[1]), '%s: %r upon %r: %r, expected %r', what, s, v, got[1], want[1])
        check(same(v, before), '%s altered %r to %r', what, before, v)
        accepted += got[0] == 'ok'
        rejected += got[0] == 'invalid'
    return accepted, rejected


both = schema_s.flatmap(lambda s: st.tuples(st.just(s), st.lists(st.one_of(value_for(s, True), value_for(s, False)), min_size=2, max_size=6)))
nested = dicts_only(schema_s).flatmap(lambda s: st.tuples(st.just(s), st.lists(st.one_of(value_for(s, True), value_for(s, False)), min_size=2, max_size=6)))


@prop.facet(st.one_of(both, nested), 'something was accepted and something was not', quick=1500)
def descriptors(case):
    s, values = case
    with scratch_dir() as root:
        make_files(root)
        d = to_descriptor(s)
        check(isinstance(str(d), str), 'str()')
        a, r = run_schema(s, d, place(values, root), root, 'descriptor')
    return a and r


@prop.facet(nested, 'something was accepted and something was not', quick=1500)
def json_schemas(case):
    s, values = case
    if not nameable(s):
        return False
    with scratch_dir() as root:
        make_files(root)
        schema = to_json(s)
        before = copy.deepcopy(schema)
        values = place(values, root)
        a, r = run_schema(s, descriptor_from_dict(schema), values, root, 'JSON schema %r' % schema)
        eq(schema, before, 'the schema was altered')
        short = {k: (to_json(c, True) if o in REQ else schema[k]) for k, c, o in s[1]}
        run_schema(s, descriptor_from_dict(short), values, root, 'abbreviated schema')
        for v in values:
            if isinstance(v, dict):
                try:
                    model(s, v, root)
                    want = True
                except Invalid:
                    want = False
                eq(DictObject(v).is_valid_schema(schema), want, 'is_valid_schema(%r) of %r' % (schema, v))
                eq(x.is_valid_schema(schema)(v), want, 'predicate is_valid_schema(%r) of %r' % (schema, v))
                if not {'schema', 'self'} & set(schema):
                    eq(DictObject(v).is_valid_schema(**schema), want, 'is_valid_schema(**%r) of %r' % (schema, v))
    return a and r


spellings = st.one_of(
    st.tuples(st.sampled_from(['true', 'false', 'TRUE', 'FALSE', 'yes', 'no', 'none', 'on', '1.5', '-17', '1_000', '0x1f', '1e3', 'inf', 'nan', '10.0.0.255']), st.integers(0, 5), st.integers(0, 5)).map(
        lambda t: t[0][t[1]:len(t[0]) - t[2]]),
    st.tuples(st.sampled_from(['', ' ', '\n', 't', '+', '-']), st.sampled_from(['true', 'False', '12', '1.5', '1.2.3.4', '٣']), st.sampled_from(['', ' ', '\n', 'e', 'l', '.'])).map(''.join),
    st.sampled_from(['true', 'false', 'TRUE', 'FALSE', 'True', 'fALSE', '5', '-1', '2.5', '255.255.255.255', '0.0.0.0', '1.2.3.256']),
    st.text('trueFALSE01.- ', max_size=6), st.integers(-2, 2), st.sampled_from([None, True, False, 1.5, -0.0, b'true', b'5', (), [], {}, 10 ** 30]))


@prop.facet(st.tuples(st.sampled_from(['int', 'float', 'str', 'bool', 'bool', 'ipv4']), st.lists(spellings, min_size=1, max_size=12)), 'something was accepted and something was not', quick=600)
def scalars(case):
    """Whatever looks alike a valid value"""
    kind, values = case
    seen = set()
    for v in values:
        try:
            want = 'ok', model((kind,), v, '')
        except Invalid:
            want = 'invalid', None
        try:
            got = 'ok', to_descriptor((kind,))(v)
        except ConfigurationValidationError:
            got = 'invalid', None
        check(got[0] == want[0] and same(got[1], want[1]), '%s upon %r: %r, expected %r', kind, v, got, want)
        seen.add(want[0])
    return len(seen) == 2


@prop.facet(st.tuples(st.one_of(st.tuples(st.sampled_from(['int', 'float', 'str', 'bool', 'any'])), st.tuples(st.just('list'), st.just(('int',))), st.tuples(st.just('caster'), st.just('int'))),
                      st.lists(st.tuples(st.sampled_from(['pre', 'post']), st.integers(0, 4)), max_size=4), st.lists(st.one_of(st.integers(-3, 12), st.integers(-3, 12).map(str), json_v), min_size=1, max_size=5)),
            'a checker was violated', quick=500)
def checkers(case):
    """Conditions are checked prior to or after the conversion"""
    s, conditions, values = case
    PRE = [('not None', lambda v: v is not None), ('int or str', lambda v: isinstance(v, (int, str))), ('len<2', lambda v: len(str(v)) < 2), ('not 5', lambda v: v != 5), ('not "5"', lambda v: v != '5')]
    d = to_descriptor(s)
    for when, i in conditions:
        if i == 1:
            c = must_be_type(int, str)
            c.is_pre_checker = when == 'pre'
        else:
            c = CheckerCondition(PRE[i][1], PRE[i][0], is_pre_checker=when == 'pre')
        d.add_checker(c)
    violated = False
    for v in values:
        try:
            ok = all(PRE[i][1](v) for w, i in conditions if w == 'pre')
            violated |= not ok
            if not ok or s[0] == 'list' and not isinstance(v, list):
                raise Invalid()
            if s[0] == 'list':      # elements are converted after the list was checked
                mid = list(v)
            else:
                mid = model(s, v, '')
            ok = all(PRE[i][1](mid) for w, i in conditions if w == 'post')
            violated |= not ok
            if not ok:
                raise Invalid()
            want = 'ok', model(s, v, '')
        except Invalid:
            want = 'invalid', None
        try:
            got = 'ok', d(v)
        except ConfigurationValidationError:
            got = 'invalid', None
        check(got[0] == want[0] and same(got[1], want[1]), '%r with %r upon %r: %r, expected %r', s, conditions, v, got, want)
    one = must_be_one_of(1, 'a', 2.5)
    for v in values:
        if v in (1, 'a', 2.5):
            one(v)
        else:
            eq(raises(ConfigurationValidationError, one, v).value, v, 'value of the error')
    return violated


@prop.facet(st.tuples(dicts_only(leaf).filter(lambda s: not any(c[0] in ('file', 'dir', 'file_contents') for _, c, _ in s[1])), st.sampled_from(['upper', 'reject', 'tuple'])).flatmap(
    lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.lists(value_for(t[0], True), min_size=1, max_size=3))), 'there were unknown keys', quick=300)
def unknown_keys(case):
    s, how, values = case
    log = []

    def mapper(k, v):
        log.append((k, v))
        if how == 'reject':
            raise ConfigurationValidationError('unknown key %s' % k, v)
        return (k, v) if how == 'tuple' else str(v).upper()
    d = Dict([create_key(to_descriptor(c), k, o not in REQ, ['default', k] if o in ('default', 'both', 'strict') else None) for k, c, o in s[1]], unknown_key_mapper=mapper)
    found = False
    for v in values:
        known = [k for k, _, _ in s[1]]
        unknown = {k: w for k, w in v.items() if k not in known}
        del log[:]
        found |= bool(unknown)
        try:
            want = model(s, v, '')
        except Invalid:
            raises(ConfigurationValidationError, d, v)
            continue
        if how == 'reject' and unknown:
            raises(ConfigurationValidationError, d, v)
            continue
        for k in unknown:
            want[k] = (k, unknown[k]) if how == 'tuple' else str(unknown[k]).upper()
        got = d(v)
        check(same(got, want), '%r: %r, expected %r', v, got, want)
        check(len(log) == len(unknown) and {k for k, _ in log} == set(unknown), 'calls to the mapper: %r', log)
    return found


@prop.facet(st.tuples(st.sampled_from(['int', 'str', 'list', 'dict', 'union', 'caster', 'nothing', 'Integer', 'file']), st.sampled_from(['short', 'long', 'in list', 'in union', 'number', 'null'])),
            'the schema is invalid', quick=100)
def invalid_schemas(case):
    """An invalid schema is rejected with ConfigurationSchemaError rather than accepted"""
    name, form = case
    valid = name in ('int', 'str', 'file')
    inner = {'short': name, 'long': {'type': name}, 'in list': {'type': 'list', 'of': name}, 'in union': {'type': 'union', 'of': ['int', name]}, 'number': 5, 'null': None}[form]
    if form in ('number', 'null'):
        valid = False
    elif form == 'long':
        if name in ('list', 'union', 'dict', 'caster'):
            return False
    if valid:
        descriptor_from_dict({'a': inner})
        return False
    raises(ConfigurationSchemaError, descriptor_from_dict, {'a': inner})
    return True


class Named:
    def __init__(self, path):
        self.path = path

    def __str__(self):
        return self.path


@prop.facet(st.tuples(st.sampled_from(sorted(FILES)), st.sampled_from(sorted(FILES)), st.sampled_from([None, 'utf-8', 'latin-1'])), 'always', quick=60)
def objects(case):
    """FileObject and DirectoryObject"""
    a, b, enc = case
    with scratch_dir() as root:
        make_files(root)
        pa, pb = os.path.join(root, a), os.path.join(root, b)
        fa, fb = File()(pa), File()(pb)
        eq(fa == fb, a == b, 'equality of %r and %r' % (fa, fb))
        eq(fa != fb, a != b, 'inequality')
        if a == b:
            eq(hash(fa), hash(fb), 'hash')
        eq((fa == pb, pb == fa), (a == b, a == b), 'equality with the path')
        eq(fa == DirectoryObject(pa), False, 'equality of a file and a directory')
        for o in (5, None, pa.encode(), Path(pa), Named(pa), (pa,)):
            eq((fa == o, fa != o), (False, True), 'equality of a file with %r' % (o,))
        eq(str(fa), pa, 'str')
        d = Directory()(root)
        eq((d == root, d == DirectoryObject(root), d == pa), (True, True, False), 'equality of directories')
        dd = DirectoryObject(pa)
        for o in (5, None, pa.encode(), Path(pa), Named(pa), (pa,), fa):
            eq((dd == o, dd != o), (False, True), 'equality of a directory with %r' % (o,))
        eq((dd == pa, hash(dd) == hash(DirectoryObject(pa)), str(dd), str(d)), (True, True, pa, root), 'path of a directory')
        eq(sorted(d.get_files()), sorted(list(FILES) + ['sub']), 'get_files()')
        try:
            want = FILES[a].decode(enc) if enc else FILES[a]
        except UnicodeDecodeError:
            raises(UnicodeDecodeError, fa.get_value, enc)
        else:
            check(same(fa.get_value(enc), want), 'get_value')
        with fa.open('rb') as f:
            eq(f.read(), FILES[a], 'open')
    return True
