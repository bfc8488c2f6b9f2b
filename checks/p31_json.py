"""P31: JSON encoding accepts any object and says what it holds; files and data objects round-trip"""
import collections
import copy
import dataclasses
import enum
import json
import math
import os
import subprocess
import sys

from hypothesis import strategies as st

from harness import Property, check, eq, raises, scratch_dir, Violation

import satella
from satella.json import JSONAble, JSONEncoder, json_encode, read_json_from_file, write_json_to_file, write_json_to_file_if_different, JSONAbleDataObject

prop = Property('P31', ['json and ujson are correct parsers'])


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class Able(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class Duck:
    """Not a JSONAble, but has to_json()"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


@dataclasses.dataclass
class Data:
    x: object
    y: object = 3


Pair = collections.namedtuple('Pair', 'p q')


class Color(enum.Enum):
    RED = 'red'
    PAIR = (1, 'two')
    NONE = None
    FLOAT = 1.5
    NESTED = Able([1, {'a': 2}])


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class Word(str, enum.Enum):
    A = 'a'
    NON_ASCII = 'ż"\\'


class Flags(enum.Flag):
    X = 1
    Y = 2


class AnyText:
    def __repr__(self):
        return '<any text>'


ANY = AnyText()


def odd(i):
    return [b'bytes', {1, 2}, frozenset('a'), object(), 1j, range(3), (x for x in 'abc'), memoryview(b'a'), bytearray(b'x')][i]


key = st.one_of(st.text('abż"\\', max_size=3), st.integers(-3, 3), st.booleans(), st.none(), st.sampled_from([1.5, -0.25]))
scalar = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.integers(-2 ** 70, 2 ** 70), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=4), st.text('ab"\\/\n\x00\u2028\U0001f600ż', max_size=6))
spec = st.recursive(st.one_of(st.tuples(st.just('scalar'), scalar), st.tuples(st.just('scalar'), scalar), st.tuples(st.just('enum'), st.sampled_from(list(Color) + list(Num) + list(Word) + [Flags.X, Flags.X | Flags.Y])),
                              st.tuples(st.just('odd'), st.integers(0, 8))),
                    lambda c: st.one_of(st.tuples(st.sampled_from(['list', 'tuple']), st.lists(c, max_size=3)), st.tuples(st.sampled_from(['dict', 'odict', 'ddict']), st.lists(st.tuples(key, c), max_size=3)),
                                        st.tuples(st.just('plain'), st.dictionaries(st.sampled_from(['a', '_b', 'ż', 'self_']), c, max_size=3)), st.tuples(st.sampled_from(['slotted', 'pair', 'data']), c, c),
                                        st.tuples(st.sampled_from(['able', 'duck']), c)), max_leaves=8)
plain_spec = st.recursive(scalar, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)), max_leaves=8)


def jkey(k):
    """What JSON makes of a key"""
    return 'true' if k is True else 'false' if k is False else 'null' if k is None else k if isinstance(k, str) else float.__repr__(k) if isinstance(k, float) else str(k)


def make(s):
    """(object, what should its JSON be parsed to)"""
    kind = s[0]
    if kind == 'scalar':
        return s[1], s[1]
    if kind == 'enum':
        v = s[1].value
        if s[1] is Color.NESTED:
            return s[1], [1, {'a': 2}]
        return s[1], list(v) if isinstance(v, tuple) else v
    if kind == 'odd':
        return odd(s[1]), ANY
    if kind in ('list', 'tuple'):
        pairs = [make(x) for x in s[1]]
        l = [p[0] for p in pairs]
        return (l if kind == 'list' else tuple(l)), [p[1] for p in pairs]
    if kind in ('dict', 'odict', 'ddict'):
        d, want = {}, {}
        for k, x in s[1]:
            if jkey(k) in want:
                continue
            d[k], want[jkey(k)] = make(x)
        if len(d) != len(want):     # 1 and True are the same key
            return {}, {}
        return (d if kind == 'dict' else collections.OrderedDict(d) if kind == 'odict' else collections.defaultdict(list, d)), want
    if kind == 'plain':
        pairs = {k: make(v) for k, v in s[1].items()}
        return Plain(**{k: p[0] for k, p in pairs.items()}), {k: p[1] for k, p in pairs.items()}
    parts = [make(x) for x in s[1:]]
    vals, wants = [p[0] for p in parts], [p[1] for p in parts]
    if kind == 'slotted':
        return Slotted(*vals), dict(zip('ab', wants))
    if kind == 'pair':
        return Pair(*vals), wants
    if kind == 'data':
        return Data(*vals), dict(zip('xy', wants))
    return (Able if kind == 'able' else Duck)(vals[0]), wants[0]


def match(got, want, where='value'):
    if want is ANY:
        check(isinstance(got, str), '%s is %r, and not a text', where, got)
    elif isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), '%s is %r instead of %r', where, got, want)
        for i, (g, w) in enumerate(zip(got, want)):
            match(g, w, '%s[%s]' % (where, i))
    elif isinstance(want, dict):
        check(isinstance(got, dict), '%s is %r instead of %r', where, got, want)
        eq(list(got), list(want), 'keys of %s' % where)
        for k in want:
            match(got[k], want[k], '%s[%r]' % (where, k))
    else:
        check(got == want and (isinstance(got, bool) == isinstance(want, bool)) and isinstance(got, str) == isinstance(want, str), '%s is %r instead of %r', where, got, want)


@prop.facet(spec, 'the value is not understood by JSON itself', quick=1500)
def encoding(s):
    """json_encode, JSONEncoder, write_json_to_file"""
    obj, want = make(s)
    for encode in (json_encode, JSONEncoder().encode, lambda v: json.dumps(v, cls=JSONEncoder)):
        match(json.loads(encode(obj)), want)
    with scratch_dir() as root:
        path = os.path.join(root, 'f')
        write_json_to_file(path, obj)
        with open(path, encoding='utf-8') as f:
            match(json.load(f), want)
    try:
        json.dumps(obj)
        return False
    except TypeError:
        return True


def close(got, want):
    """ujson might be a bit off when it comes to floats"""
    if isinstance(want, float):
        return isinstance(got, (int, float)) and math.isclose(got, want, rel_tol=1e-13, abs_tol=1e-300)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(close, got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(close(got[k], want[k]) for k in want)
    return got == want and type(got) is type(want)


@prop.facet(st.tuples(st.lists(st.tuples(st.sampled_from(['write', 'different', 'different', 'again', 'foreign', 'read']), plain_spec), max_size=6), st.booleans()), 'a file was rewritten', quick=300)
def files(case):
    """read_json_from_file, write_json_to_file, write_json_to_file_if_different"""
    ops, enc = case
    value, exists, canonical, useful = None, False, False, 0
    kw = {'encoding': 'utf-8'} if enc else {}
    with scratch_dir() as root:
        path = os.path.join(root, 'f')
        for op, v in ops:
            if op == 'again':
                op, v = 'different', copy.deepcopy(value)
            if op == 'write':
                write_json_to_file(path, v)
                value, exists, canonical = v, True, True
            elif op == 'foreign':
                with open(path, 'w', encoding='utf-8') as f:
                    json.dump(v, f, ensure_ascii=False, indent=3)
                value, exists, canonical = v, True, False
            elif op == 'different':
                st1 = exists and os.stat(path).st_mtime_ns
                got = write_json_to_file_if_different(path, v, **kw)
                same = exists and json.dumps(v) == json.dumps(value)
                if canonical or not same:
                    eq(got, not same, 'write_json_to_file_if_different')
                if not got:
                    eq(os.stat(path).st_mtime_ns, st1, 'modification time')
                useful += exists
                value, exists, canonical = v, True, True
            if not exists:
                raises(OSError, read_json_from_file, path)
            else:
                got = read_json_from_file(path)
                check(close(got, value), 'read %r instead of %r', got, value)
    return useful


@prop.facet(st.one_of(st.binary(max_size=8), st.text('{}[]":,1ae ', max_size=10).map(str.encode), st.sampled_from([b'', b'{"a": 1', b'nul', b"{'a': 1}", b'{"a" 1}', b'[1,]', b'"\xff"', b'[1] 2'])), 'the file was not a JSON', quick=300)
def garbage(content):
    """read_json_from_file fails with ValueError"""
    with scratch_dir() as root:
        path = os.path.join(root, 'f')
        with open(path, 'wb') as f:
            f.write(content)
        try:
            want = json.loads(content.decode('utf-8'))
        except ValueError:
            try:
                read_json_from_file(path)    # parsers differ as to how strict they are
            except ValueError:
                return True
            return False
        if isinstance(want, float) and (math.isnan(want) or math.isinf(want)):
            return False
        got = read_json_from_file(path)
        check(close(got, want), 'read %r instead of %r', got, want)
        return False


CHILD = '''
import sys, json
from satella.json import read_json_from_file, write_json_to_file
v = read_json_from_file(sys.argv[1])
write_json_to_file(sys.argv[2], v)
print(json.dumps(v))
'''


@prop.facet(st.tuples(st.sampled_from(['C', 'POSIX', 'C.UTF-8']), st.text('aż€\U0001f600', min_size=1, max_size=5)), 'a text is not ASCII', quick=5, thorough=100)
def locales(case):
    """Files are UTF-8 whatever the locale"""
    locale, text = case
    with scratch_dir() as root:
        a, b = os.path.join(root, 'a'), os.path.join(root, 'b')
        with open(a, 'w', encoding='utf-8') as f:
            json.dump({text: [text]}, f, ensure_ascii=False)
        env = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'PYTHONUTF8')}
        env.update(LC_ALL=locale, PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONPATH=os.path.dirname(os.path.dirname(satella.__file__)))
        p = subprocess.run([sys.executable, '-c', CHILD, a, b], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        check(not p.returncode, 'with locale %s: %s', locale, p.stderr.decode(errors='replace')[-300:])
        eq(json.loads(p.stdout.decode()), {text: [text]}, 'what was read')
        with open(b, encoding='utf-8') as f:
            eq(json.load(f), {text: [text]}, 'what was written')
    return not text.isascii()


FIELDS = ['a', 'b', 'c', 'd']
val = st.one_of(st.integers(0, 3), st.integers(10 ** 10, 10 ** 10 + 1), st.sampled_from(['x', 'y', None, True, 1.5, (1, 2)]))
level = st.dictionaries(st.sampled_from(FIELDS), st.one_of(st.just('none'), st.tuples(val)), max_size=3)


@prop.facet(st.tuples(st.lists(level, min_size=1, max_size=3), st.lists(st.dictionaries(st.sampled_from(FIELDS), val, max_size=4), min_size=1, max_size=3)), 'objects were made', quick=600)
def data_objects(case):
    """JSONAbleDataObject, along with subclasses of those"""
    levels, kwargs = case
    cls = JSONAbleDataObject
    fields, defaults = [], {}
    for i, lev in enumerate(levels):
        ns = {'__annotations__': {k: (int if len(k) else str) for k in lev}}
        for k, d in lev.items():
            if k not in fields:
                fields.append(k)
            if d != 'none':
                ns[k] = d[0]
                defaults[k] = d[0]
        cls = type('Level%s' % i, (cls,), ns)
    made = []
    for kw in kwargs:
        kw = {k: v for k, v in kw.items() if k in fields}
        if any(f not in kw and f not in defaults for f in fields):
            raises(ValueError, cls, **kw)
            missing = next(f for f in fields if f not in kw and f not in defaults)
            check(missing, 'missing')
            continue
        o = cls(**kw)
        want = {f: kw.get(f, defaults.get(f)) for f in fields}
        for f in fields:
            eq(getattr(o, f), want[f], f)
        j = o.to_json()
        eq(j, want, 'to_json()')
        o2 = cls.from_json({k: tuple(v) if isinstance(v, list) else v for k, v in json.loads(json.dumps(j)).items()})
        check(type(o2) is cls, 'type of from_json()')
        eq(j, want, 'what was given to from_json()')
        check(o == o2 and not o != o2 and hash(o) == hash(o2), 'from_json(to_json()) is not the same')
        eq(json.loads(json_encode([o])), [json.loads(json.dumps(want))], 'encoded')
        for other in (5, None, 'x', object(), [], want):
            check(not (o == other) and not (other == o) and o != other, '%r equals %r', want, other)
        made.append((o, want))
    for o, a in made:
        for p, b in made:
            same = a == b
            eq(o == p, same, '%r == %r' % (a, b))
            eq(o != p, not same, '%r != %r' % (a, b))
            if same:
                eq(hash(o), hash(p), 'hashes of equal objects')
    if len(levels) > 1 and made:    # an object of the base class, too
        base = cls.__mro__[1]
        try:
            p = base(**made[0][1])
        except ValueError:
            pass
        else:
            o = made[0][0]
            check(not o == p or hash(o) == hash(p), 'an equal object of another class hashes differently')
            eq(o == p, p == o, 'symmetry of ==')
    return len(made) > 1 and len(fields) > 1
