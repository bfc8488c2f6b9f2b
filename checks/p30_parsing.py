"""P30: a binary parser never yields bytes from outside of its window"""
import struct

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation

from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser

prop = Property('P30', ['struct computes sizes and values correctly'])

CH = 'bBhHiIlLqQfd?c'
single = st.tuples(st.sampled_from(['', '<', '>', '!', '@', '=']), st.sampled_from(CH)).map(''.join)
multi = st.tuples(st.sampled_from(['', '<', '>', '!', '@', '=']), st.lists(st.sampled_from(list(CH) + ['2s', '3B', 'x', '0s', '2x']), max_size=4)).map(lambda t: t[0] + ''.join(t[1]))
n = st.integers(0, 12)
op = st.one_of(st.tuples(st.just('get_bytes'), n), st.tuples(st.just('skip'), n), st.tuples(st.just('assert_has_bytes'), n), st.tuples(st.just('get_struct'), single, st.booleans()),
               st.tuples(st.just('get_structs'), multi, st.booleans()), st.tuples(st.just('get_struct'), single, st.booleans()), st.tuples(st.just('get_structs'), multi, st.booleans()),
               st.tuples(st.just('get_parser'), n), st.tuples(st.just('get_parser'), n), st.tuples(st.just('reset')), st.tuples(st.just('rewind'), n),
               st.tuples(st.just('get_struct_many'), multi))
ops = st.lists(st.tuples(st.integers(0, 4), op), min_size=2, max_size=14)


def same(a, b):
    """Equality of tuples, with NaN equal to itself"""
    return repr(a) == repr(b)


class Model:
    def __init__(self, data, start, end):
        self.data, self.start, self.pointer, self.end = data, start, start, end


def audit(bp, m):
    eq(len(bp), m.end - m.start, 'len()')
    b = bytes(bp)
    check(type(b) is bytes, 'bytes() is a %s', type(b))
    eq(b, m.data[m.start:m.end], 'bytes()')
    eq(bp.get_remaining_bytes_count(), m.end - m.pointer, 'get_remaining_bytes_count()')
    eq(bytes(bp.get_remaining_bytes()), m.data[m.pointer:m.end], 'get_remaining_bytes()')
    eq(bp.pointer, m.pointer, 'pointer')


@prop.facet(st.tuples(st.one_of(st.binary(max_size=8), st.binary(min_size=12, max_size=40), st.binary(min_size=20, max_size=40)), st.sampled_from([bytes, bytearray, memoryview]), st.one_of(st.just(0), st.integers(0, 35)), st.one_of(st.none(), st.none(), n), ops), 'something was parsed from a window', quick=1500, thorough=60000)
def windows(case):
    """Histories of a parser and of parsers of its parts"""
    data, kind, offset, length, steps = case
    stream = kind(data)
    make = lambda: BinaryParser(*((stream, offset) if length is None else (stream, offset, length)))   # noqa: E731
    if offset > len(data):
        raises(NotEnoughBytes, make)
        return False
    bp = BinaryParser(stream) if not offset and length is None else make()
    end = len(data) if length is None else min(len(data), offset + length)
    parsers = [(bp, Model(data, offset, end))]
    audit(*parsers[0])
    useful = 0
    for which, (name, *args) in steps:
        bp, m = parsers[which % len(parsers)]
        left = m.end - m.pointer
        if name == 'reset':
            bp.reset()
            m.pointer = m.start
        elif name == 'rewind':
            bp.pointer = m.pointer = min(m.start + args[0], m.end)
        elif name in ('get_bytes', 'skip', 'assert_has_bytes', 'get_parser'):
            k = args[0]
            if k > left:
                raises(NotEnoughBytes, getattr(bp, name), k)
            else:
                got = getattr(bp, name)(k)
                if name == 'get_bytes':
                    eq(bytes(got), m.data[m.pointer:m.pointer + k], 'get_bytes(%s)' % k)
                elif name == 'get_parser':
                    parsers.append((got, Model(data, m.pointer, m.pointer + k)))
                else:
                    eq(got, None, name)
                if name != 'assert_has_bytes':
                    m.pointer += k
                useful += len(parsers) > 1 or offset > 0
        elif name == 'get_struct_many':
            fmt = args[0]
            if len(fmt.lstrip('<>!@=')) > 1:
                raises(AssertionError, bp.get_struct, fmt)
        else:
            fmt, compiled = args
            s = struct.Struct(fmt)
            arg = s if compiled else fmt
            if s.size > left:
                raises(NotEnoughBytes, getattr(bp, name), arg)
            else:
                want = s.unpack(m.data[m.pointer:m.pointer + s.size])
                got = getattr(bp, name)(arg)
                check(same(got, want[0] if name == 'get_struct' else want), '%s(%r) at %s is %r instead of %r', name, fmt, m.pointer, got, want)
                m.pointer += s.size
                useful += s.size > 0 and (len(parsers) > 1 or offset > 0)
        for p in parsers:
            audit(*p)
    eq(bytes(stream), data, 'the stream')
    if kind is bytearray and data:
        # nothing was copied: the parsers show what the stream holds now
        for i in range(len(stream)):
            stream[i] ^= 0x55
        for bp, m in parsers:
            m.data = bytes(stream)
            audit(bp, m)
    return useful


@prop.facet(st.tuples(st.binary(min_size=60, max_size=60), st.lists(st.tuples(st.sampled_from(['', '@', '=', '<', '>', '!']), st.sampled_from(['l', 'L', 'l', 'bl', 'hi', 'bq', 'lb']), st.booleans()), min_size=2, max_size=8)),
            'the same codes were read in two ways', quick=400)
def formats(case):
    """The same codes with different byte orders, sizes and alignments, read by a single parser"""
    data, todo = case
    bp = BinaryParser(data)
    at = 0
    for order, codes, compiled in todo:
        s = struct.Struct(order + codes)
        arg = s if compiled else order + codes
        name = 'get_struct' if len(codes) == 1 else 'get_structs'
        if at + s.size > len(data):
            raises(NotEnoughBytes, getattr(bp, name), arg)
            continue
        want = s.unpack_from(data, at)
        eq(getattr(bp, name)(arg), want[0] if len(codes) == 1 else want, '%s(%r) at %s' % (name, order + codes, at))
        at += s.size
        eq(bp.pointer, at, 'pointer after %r' % (order + codes,))
    return any(a[1] == b[1] and a[0] != b[0] for a in todo for b in todo)


@prop.facet(st.lists(st.tuples(st.sampled_from(['', '<', '>', '!', '=', '@']), st.sampled_from(['b', 'B', 'h', 'H', 'i', 'I', 'q', 'Q', '?', 'h', 'i', 'i']), st.integers(-2 ** 63, 2 ** 64)), max_size=8), 'several values', quick=300)
def round_trip(values):
    """What was packed is parsed back"""
    fmts, want, raw = [], [], b''
    for order, c, v in values:
        bits = 8 * struct.calcsize('<' + c)
        v = v % 2 ** bits if c.isupper() else bool(v % 2) if c == '?' else v % 2 ** bits - 2 ** (bits - 1)
        fmts.append(order + c)
        want.append(v)
        raw += struct.pack(order + c, v)
    bp = BinaryParser(b'zz' + raw, 2)
    eq([bp.get_struct(f) for f in fmts], want, 'values')
    eq(bp.get_remaining_bytes_count(), 0, 'remaining bytes')
    raises(NotEnoughBytes, bp.get_bytes, 1)
    return len(values) > 2
