"""Shared strategies; all of them produce plain picklable data"""
from hypothesis import strategies as st

small = st.integers(-3, 8)
ints = st.one_of(st.integers(-5, 12), st.integers(-10 ** 6, 10 ** 6))
ts = st.one_of(st.integers(0, 12), st.sampled_from([0.5, 1.5, 2.5, 7.25, -1, -2.5]))
ident = st.text('abcdefgh', min_size=1, max_size=3)


def ops(*choices, max_size=40, min_size=0):
    """A list of operations, each a tuple (name, *args)"""
    one = st.one_of(*choices)
    short = st.lists(one, min_size=min_size, max_size=max_size)
    if max_size < 8 or min_size > max_size // 3:
        return short
    # Hypothesis' lists are short on average, so ask for long histories explicitly
    return st.one_of(short, st.lists(one, min_size=max_size // 3, max_size=max_size))


def op(name, *args):
    return st.tuples(st.just(name), *args)


class Tok:
    """A value with equality and hash, but no ordering"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Tok) and other.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Tok(%r)' % (self.n,)
