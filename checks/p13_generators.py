"""Generator and iterator wrappers"""
import gc
import operator
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding import SelfClosingGenerator, hint_with_length, chain, run_when_generator_completes, exhaust, \
    RunActionAfterGeneratorCompletes
from satella.coding.sequences import ListWrapperIterator, IteratorListAdapter

prop = Property('P13', ['membership tests of a list-like iterator may advance its own iteration'])
Z = object()

lw_ops = ops(op('get', st.integers(-9, 11)), op('slice', st.one_of(st.none(), st.integers(-4, 10)), st.one_of(st.none(), st.integers(-4, 10)), st.sampled_from([None, 1, 2, -1])),
             op('len'), op('next'), op('next'), op('next'), op('exhaust'), op('advance', st.integers(0, 9)), op('contains', st.integers(-3, 9)), max_size=12)


class Flaky(Exception):
    pass


class FlakyIterator:
    """Fails once before each of the given elements, and then goes on"""

    def __init__(self, data, fails):
        self.data, self.fails, self.pos = list(data), set(fails), 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos in self.fails:
            self.fails.discard(self.pos)
            raise Flaky(self.pos)
        if self.pos >= len(self.data):
            raise StopIteration()
        self.pos += 1
        return self.data[self.pos - 1]


flaky_ops = ops(op('get', st.integers(-9, 11)), op('slice', st.one_of(st.none(), st.integers(-4, 10)), st.one_of(st.none(), st.integers(-4, 10))), op('len'), op('next'), op('next'),
                op('exhaust'), op('advance', st.integers(0, 9)), max_size=10)


@prop.facet(st.tuples(st.lists(small, max_size=8), st.sets(st.integers(0, 8), max_size=3), flaky_ops), 'the iterator failed at least once', quick=1200)
def interrupted_list_wrapper(case):
    """The iterator fails at places; the failure is passed on, and the operation made again gives what the full list would"""
    data, fails, program = case
    it = FlakyIterator(data, fails)
    lw = ListWrapperIterator(it)
    ptr, failed = 0, 0
    for o in program:
        for _ in range(len(fails) + 1):
            try:
                if o[0] == 'get':
                    got, want = Outcome.of(operator.getitem, lw, o[1]), Outcome.of(operator.getitem, data, o[1])
                    if got == ('exc', Flaky):
                        raise Flaky()
                elif o[0] == 'slice':
                    s = slice(*o[1:])
                    got, want = list(lw[s]), data[s]
                elif o[0] == 'len':
                    got, want = len(lw), len(data)
                elif o[0] == 'next':
                    got, want = next(lw, 'end'), data[ptr] if ptr < len(data) else 'end'
                    ptr = min(ptr + 1, len(data))
                elif o[0] == 'exhaust':
                    got, want = lw.exhaust(), None
                else:
                    got, want = lw.advance_to_item(o[1]), None
                break
            except Flaky:
                failed += 1
        else:
            raise Violation('%s kept failing' % (o,))
        eq(got, want, 'result of %s' % (o,))
    return failed > 0


@prop.facet(st.tuples(st.lists(small, max_size=8), lw_ops), 'at least two operations were made before the iterator was exhausted', quick=2500)
def list_wrapper(case):
    data, program = case
    pulled = []

    def gen():
        for q in data:
            pulled.append(q)
            yield q
    lw = ListWrapperIterator(gen())
    ptr = 0
    needed = 0
    nt = 0
    for o in program:
        if len(pulled) < len(data):
            nt += 1
        if o[0] == 'get':
            eq(Outcome.of(operator.getitem, lw, o[1]), Outcome.of(operator.getitem, data, o[1]), 'item %s' % o[1])
            needed = max(needed, o[1] + 1 if o[1] >= 0 else len(data))
        elif o[0] == 'slice':
            s = slice(*o[1:])
            eq(list(lw[s]), data[s], 'slice %s' % (s,))
            if s.stop is None or s.stop < 0 or (s.start or 0) < 0 or s.step == -1:
                needed = len(data)
            else:
                needed = max(needed, s.stop)
        elif o[0] == 'len':
            eq(len(lw), len(data), 'len')
            needed = len(data)
        elif o[0] == 'next':
            if ptr is None:
                continue
            eq(next(lw, 'end'), data[ptr] if ptr < len(data) else 'end', 'next')
            ptr = min(ptr + 1, len(data))
            needed = max(needed, ptr)
        elif o[0] == 'exhaust':
            lw.exhaust()
            needed = len(data)
        elif o[0] == 'advance':
            lw.advance_to_item(o[1])
            needed = max(needed, o[1])
        elif o[0] == 'contains':
            eq(o[1] in lw, o[1] in data, 'inclusion of %s' % o[1])
            needed = max(needed, data.index(o[1]) + 1 if o[1] in data else len(data))
            ptr = None
        check(len(pulled) <= max(needed, 0), '%s: %s elements were computed, %s are needed', o, len(pulled), needed)
    eq(pulled, data[:len(pulled)], 'what was pulled')
    return nt > 1


@prop.facet(st.tuples(st.lists(small, max_size=6), st.integers(0, 8), st.sampled_from(['close', 'ctx', 'ctxexc', 'del', 'close twice', 'exhaust']), st.booleans(), st.booleans()),
            'the generator was abandoned before its end', quick=800)
def self_closing(case):
    data, taken, how, as_function, sends = case
    log = []

    def gen(x=None):
        for q in data:
            got = yield q
            log.append((q, got))
        log.append('end')
    s = SelfClosingGenerator(gen)(1) if as_function else SelfClosingGenerator(gen())
    got = []
    sent = []

    def consume():
        for i in range(taken):
            if sends and i > 0:
                try:
                    got.append(s.send(i))
                    sent.append(i)
                except StopIteration:
                    sent.append(i)
                    break
            else:
                q = next(s, Z)
                if q is Z:
                    break
                got.append(q)
    if how == 'ctx':
        with s as s2:
            check(s2 is s, 'context manager returned something else')
            consume()
    elif how == 'ctxexc':
        with expecting(KeyError):
            with s:
                consume()
                raise KeyError()
    else:
        consume()
        if how in ('close', 'close twice'):
            s.close()
        if how == 'close twice':
            s.close()
        elif how == 'exhaust':
            exhaust(s)
        elif how == 'del':
            s = None
            gc.collect()
    eq(got, data[:taken], 'items')
    want = []
    for i, q in enumerate(data):
        want.append((q, sent[i] if i < len(sent) else None))
    eq(log, want + ['end'], 'what the generator did')
    if s is not None:
        eq(next(s, Z), Z, 'next after closing')
    return taken < len(data)


@prop.facet(st.tuples(st.lists(small, max_size=6), st.integers(0, 20), st.booleans(), st.booleans()), 'there were items', quick=400)
def length_hint(case):
    data, hint, factory, as_function = case

    def gen(k=0):
        for q in data:
            got = yield q + k
            if got is not None:
                yield ('got', got)
    calls = []

    def fac():
        calls.append(1)
        return hint
    kw = {'length': None, 'length_factory': fac} if factory else {'length': hint}
    g = hint_with_length(gen, **kw)(k=5) if as_function else hint_with_length(gen(5), **kw)
    eq(operator.length_hint(g), hint, 'length hint')
    if data:
        eq(next(g), data[0] + 5, 'next')
        eq(g.send(7), ('got', 7), 'send')
        eq(list(g), [q + 5 for q in data[1:]], 'the rest')
    else:
        eq(list(g), [], 'nothing')
    raises(ValueError, hint_with_length, gen(), None, None)
    raises(ValueError, hint_with_length, gen(), 5, fac)
    g2 = hint_with_length(gen(), length_factory=fac) if factory else hint_with_length(gen(), hint)
    g2.close()
    eq(list(g2), [], 'items after closing')
    return bool(data)


act = st.lists(st.sampled_from(['next', 'next', 'next', 'send', 'throw_caught', 'throw_uncaught', 'close', 'iter']), max_size=10)


@prop.facet(st.tuples(st.lists(small, max_size=4), act, st.booleans(), st.lists(small, max_size=2)), 'the generator completed or was aborted', quick=1500)
def run_after(case):
    data, actions, subclass, args = case
    done = []
    state = {'n': 0, 'alive': True, 'finished': False, 'started': False}

    def gen():
        for q in data:
            try:
                got = yield (q, None)
                while got is not None:
                    got = yield (q, got)
            except KeyError:
                pass
        return 'result'
    ref = gen()
    if subclass:
        class R(RunActionAfterGeneratorCompletes):
            def action_to_run(self, *a, **kw):
                done.append((a, kw))
        g = R(gen(), *args, key=3)
    else:
        g = run_when_generator_completes(gen(), lambda *a, **kw: done.append((a, kw)), *args, key=3)
    completed = aborted = False

    def act(target, a):
        try:
            if a == 'next':
                return 'ok', next(target)
            if a == 'send':
                return 'ok', target.send(5)
            if a == 'throw_caught':
                return 'ok', target.throw(KeyError())
            if a == 'throw_uncaught':
                return 'ok', target.throw(ValueError())
            if a == 'close':
                return 'ok', target.close()
            return 'ok', iter(target) is target
        except StopIteration as e:
            return 'stop', e.value
        except Exception as e:
            return 'exc', type(e)
    finished = False
    for a in actions:
        want = act(ref, a)
        got = act(g, a)
        eq(got, want, a)
        if not finished:
            if want[0] == 'stop':
                finished = completed = True
            elif a == 'close' or (want[0] == 'exc' and want[1] is not TypeError):
                finished = aborted = True
        eq(done, [(tuple(args), {'key': 3})] if completed else [], 'calls of the action after %s' % a)
    return finished


class Boom:
    def __init__(self, items, exc):
        self.items, self.exc = items, exc

    def __iter__(self):
        yield from self.items
        raise self.exc()


@prop.facet(st.tuples(st.lists(st.one_of(small, st.lists(small, max_size=3), st.none()), max_size=4), st.lists(small, max_size=3),
                      st.sampled_from([TypeError, ValueError, KeyError])), 'something came before the failure', quick=500)
def chain_failures(case):
    """A failure inside an iterable is passed on, with everything before it delivered exactly once"""
    before, items, exc = case
    it = chain(*before, Boom(items, exc), 5)
    want = []
    for q in before:
        want.extend(q) if isinstance(q, list) else want.append(q)
    want += items
    got = []

    def f():
        for q in it:
            got.append(q)
    raises(exc, f)
    eq(got, want, 'what was yielded before the failure')
    return bool(want)


@prop.facet(st.tuples(st.lists(small, max_size=6), st.integers(0, 3), st.integers(-3, 8)), 'the iterator was partly consumed', quick=300)
def list_adapter(case):
    data, taken, x = case
    a = IteratorListAdapter(iter(data))
    for q in data[:taken]:
        eq(next(a), q, 'next')
    rest = data[taken:]
    eq(len(a), len(rest), 'len')
    eq(x in a, x in rest, 'in')
    eq(Outcome.of(operator.getitem, a, x), Outcome.of(operator.getitem, rest, x), 'getitem')
    eq(list(a), rest, 'iteration')
    eq(list(a), rest, 'second iteration')
    for q in rest:
        eq(next(a), q, 'next after reading it as a list')
    raises(StopIteration, next, a)
    return 0 < taken <= len(data)
