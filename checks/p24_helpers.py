"""P24: small helpers: optional values, closeables, contexts, merging and comparing, conditional updates"""
import copy
import enum
import gc
import queue
import threading
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation
from gen import op, ops

from satella.coding import Closeable, Context, merge_dicts, assert_equal, Inequal, InequalityReason, queue_iterator, update_attr_if_none, update_key_if_true, \
    update_key_if_not_none, update_if_not_none, update_key_if_none, enum_value, length, contains, EmptyContextManager
from satella.coding.optionals import Optional, extract_optional, iterate_if_nnone, call_if_nnone
from satella.coding.structures import ComparableEnum

prop = Property('P24')


class Obj:
    def __init__(self, v):
        self.v = v
        self.items = {'a': v}

    def __call__(self, *args, **kwargs):
        return 'called', args, kwargs

    def __getitem__(self, item):
        return self.items[item]

    def __setitem__(self, key, value):
        self.items[key] = value

    def __delitem__(self, key):
        del self.items[key]

    def __len__(self):
        return len(self.items)

    def __contains__(self, item):
        return item in self.items

    def method(self):
        return self

    def __eq__(self, other):
        return isinstance(other, Obj) and self.v == other.v

    __hash__ = None


def is_empty(v):
    return isinstance(v, Optional) and extract_optional(v) is None


steps = st.lists(st.sampled_from(['attr', 'item', 'call', 'missing', 'missing_item']), max_size=4)
opt_ops = st.lists(st.one_of(st.just(('bool',)), st.tuples(st.just('eq'), st.integers(0, 3)), st.just(('eqnone',)), st.tuples(st.just('in'), st.sampled_from('ab')), st.just(('len',)),
                             st.tuples(st.just('set'), st.sampled_from('ab'), st.integers()), st.tuples(st.just('del'), st.sampled_from('ab')),
                             st.tuples(st.just('chain'), steps), st.tuples(st.just('cmp'), st.sampled_from(['<', '<=', '>', '>=']), st.integers(0, 3))), min_size=1, max_size=8)


@prop.facet(st.tuples(st.one_of(st.none(), st.integers(0, 3), st.tuples(st.just('obj'), st.integers(0, 3)), st.lists(st.integers(0, 3), max_size=3)), opt_ops), 'always', quick=800)
def optionals(case):
    v, todo = case
    obj = Obj(v[1]) if isinstance(v, tuple) else v
    twin = copy.deepcopy(obj)
    o = Optional(obj)
    check(extract_optional(o) is obj and extract_optional(5) == 5, 'extract_optional')
    cmps = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}

    def out(fun):
        try:
            return 'ok', fun()
        except Exception as e:
            return 'exc', type(e)
    for o_ in todo:
        k = o_[0]
        if k == 'bool':
            eq(bool(o), bool(twin), 'truth')
        elif k == 'eq':
            eq((o == o_[1], o == Obj(o_[1])), (twin == o_[1], twin == Obj(o_[1])) if obj is not None else (False, False), 'equality')
        elif k == 'eqnone':
            eq(o == None, False, 'equality with None')      # noqa
        elif k == 'in':
            eq(out(lambda: o_[1] in o), ('ok', False) if obj is None else out(lambda: o_[1] in twin), 'membership')
        elif k == 'len':
            eq(out(lambda: len(o)), ('ok', 0) if obj is None else out(lambda: len(twin)), 'length')
        elif k in ('set', 'del'):
            def alter(x):
                if k == 'set':
                    x[o_[1]] = o_[2]
                else:
                    del x[o_[1]]
            got, want = out(lambda: alter(o)), ('ok', None) if obj is None else out(lambda: alter(twin))
            eq(got[0], want[0], '%s: %r, expected %r' % (k, got, want))
            if isinstance(obj, (Obj, list)):
                eq(getattr(obj, 'items', obj), getattr(twin, 'items', twin), 'items')
            if isinstance(obj, Obj):
                eq(obj.items, twin.items, 'items')
        elif k == 'cmp':
            eq(out(lambda: cmps[o_[1]](o, o_[2])), ('ok', False) if obj is None else out(lambda: cmps[o_[1]](twin, o_[2])), 'comparison')
        elif k == 'chain':
            def walk(x):
                for s in o_[1]:
                    x = {'attr': lambda: x.method, 'item': lambda: x['a'], 'call': lambda: x(1, k=2), 'missing': lambda: x.missing, 'missing_item': lambda: x['zz']}[s]()
                return x
            got = out(lambda: walk(o))
            if obj is None:
                check(got[0] == 'ok' and is_empty(got[1]), 'a chain of operations upon an empty optional gave %r', got)
            elif o_[1]:
                want = out(lambda: walk(twin))
                if want[0] == 'ok' and callable(want[1]) and not isinstance(want[1], Obj):
                    check(got[1].__self__ is obj, 'bound method')
                elif want[0] == 'ok' and want[1] is twin:
                    check(got[1] is obj, 'the object itself')
                else:
                    eq(got, want, 'chain %r' % (o_[1],))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if obj is None:
            eq(list(iterate_if_nnone(None)), [], 'iterate_if_nnone')
            check(call_if_nnone(None, 1, k=2) is None, 'call_if_nnone')
        elif isinstance(obj, list):
            eq(list(iterate_if_nnone(obj)), obj, 'iterate_if_nnone')
        elif isinstance(obj, Obj):
            eq(call_if_nnone(obj, 1, k=2), ('called', (1,), {'k': 2}), 'call_if_nnone')
    return True


@prop.facet(st.lists(st.sampled_from(['close', 'with', 'withraise', 'closed', 'del', 'nested']), min_size=1, max_size=8), 'closed at least twice', quick=400)
def closeables(history):
    cleaned = []

    class K(Closeable):
        def __init__(self):
            super().__init__()

        def close(self):
            if super().close():
                cleaned.append(1)

    if True:
        cls = K
        o = cls()
        open_ = True
        closes = 0
        for h in history:
            eq(o.closed, not open_, 'closed')
            eq(len(cleaned), 0 if open_ else 1, 'cleanups')
            if h == 'close':
                o.close()
                open_ = False
                closes += 1
            elif h == 'with':
                with o as x:
                    check(x is o, 'entering returns the object')
                open_ = False
                closes += 1
            elif h == 'nested':
                with o:
                    with o:
                        eq(len(cleaned), 0 if open_ else 1, 'cleanups')
                    open_ = False
                    eq(len(cleaned), 1, 'cleanups after the inner block')
                closes += 2
            elif h == 'withraise':
                try:
                    with o:
                        raise KeyError(5)
                except KeyError as e:
                    eq(e.args, (5,), 'exception')
                else:
                    raise Violation('exception was swallowed')
                open_ = False
                closes += 1
            elif h == 'del':
                e = x = None        # the traceback keeps a reference
                del o
                gc.collect()
                eq(len(cleaned), 1, 'cleanups after the object was collected')
                del cleaned[:]
                o = cls()
                open_ = True

    class Half(Closeable):
        def __init__(self):
            self.cleaned = False

        def close(self):
            if super().close():
                self.cleaned = True
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        h = Half()
        check(h.closed, 'objects before initialization are considered closed')
        check(w, 'no warning was issued')
        h.close()
        check(not h.cleaned, 'cleaned up an object which was not initialized')
    check(EmptyContextManager(1, a=2).__exit__(None, None, None) in (False, None), 'empty context manager swallows')
    return closes >= 2


names = st.sampled_from(['a', 'b', 'c'])
settings = st.one_of(st.integers(0, 9), st.sampled_from([None, '', False]))


@prop.facet(ops(op('enter'), op('exit'), op('exitraise'), op('set', names, settings), op('get', names), op('del', names), op('exists', names), op('push', names), op('other', names),
                op('pushv', names, settings), max_size=30), 'depth of at least two was reached', quick=800)
def contexts(history):
    result = []

    def run():
        try:
            result.append(('ok', contexts_of_thread(history)))
        except BaseException as e:
            result.append(('exc', e))
    thread = threading.Thread(target=run)       # starts with no contexts
    thread.start()
    thread.join()
    kind, v = result[0]
    if kind == 'exc':
        raise v
    return v


def contexts_of_thread(history):
    gone = object()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = Context.get()
        stack, managers, layers, deepest = [base], [], [{}], 1

        def lookup(name):
            for layer in reversed(layers):
                if name in layer:
                    return layer[name]
            return gone

        if True:
            for o in history:
                check(Context.get() is stack[-1], 'the current context is not the innermost one')
                c = stack[-1]
                if o[0] == 'enter':
                    if len(stack) > 4:
                        continue
                    m = Context()
                    managers.append(m)
                    stack.append(m.__enter__())
                    layers.append({})
                    deepest = max(deepest, len(layers))
                elif o[0] in ('exit', 'exitraise'):
                    if not managers:
                        continue
                    r = managers.pop().__exit__(*((None,) * 3 if o[0] == 'exit' else (KeyError, KeyError(), None)))
                    check(not r, 'exception was swallowed')
                    stack.pop()
                    layers.pop()
                elif o[0] == 'set':
                    setattr(c, o[1], o[2])
                    layers[-1][o[1]] = o[2]
                elif o[0] == 'get':
                    want = lookup(o[1])
                    if want is gone:
                        raises(AttributeError, getattr, c, o[1])
                    else:
                        eq(getattr(c, o[1]), want, 'value of ' + o[1])
                elif o[0] == 'exists':
                    eq(c.does_exist(o[1]), lookup(o[1]) is not gone, 'existence of ' + o[1])
                elif o[0] == 'del':
                    delattr(c, o[1])
                    layers[-1][o[1]] = gone
                elif o[0] == 'other':
                    seen = []

                    def stranger():
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            its = Context.get()
                            seen.append((its.does_exist(o[1]), getattr(its, o[1], gone) is gone))
                            setattr(its, o[1], 'alien')
                            with Context() as inner:
                                setattr(inner, o[1], 'alien')
                    t = threading.Thread(target=stranger)
                    t.start()
                    t.join()
                    eq(seen, [(False, True)], 'what another thread sees')
                elif o[0] == 'push':
                    if len(layers) < 2 or layers[-1].get(o[1], gone) is gone:
                        continue
                    c.push_up(o[1])
                    layers[-2][o[1]] = layers[-1].pop(o[1])
                elif o[0] == 'pushv':
                    if len(layers) < 2:
                        continue
                    c.push_up(o[1], o[2])
                    layers[-2][o[1]] = o[2]
                for n in 'abc':
                    want = lookup(n)
                    eq(getattr(stack[-1], n, gone), want, 'value of %s after %r' % (n, o))
            while managers:
                managers.pop().__exit__(None, None, None)
                layers.pop()
                stack.pop()
                for n in 'abc':
                    eq(getattr(stack[-1], n, gone), lookup(n), 'value of %s after leaving' % n)
    return deepest >= 2


leaf = st.one_of(st.integers(0, 3), st.none(), st.sampled_from(['x', '', True, 1.5]))
tree = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from('abcd'), c, max_size=3)), max_leaves=8)
dicts = st.dictionaries(st.sampled_from('abcd'), tree, max_size=4)


def merged(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = {k: merged(v, b[k]) if k in b else v for k, v in a.items()}
        out.update({k: v for k, v in b.items() if k not in a})
        return out
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


@prop.facet(st.tuples(st.one_of(dicts, tree), st.lists(st.one_of(dicts, tree), min_size=1, max_size=4)), 'dictionaries or lists were merged', quick=800)
def merging(case):
    first, others = copy.deepcopy(case)
    want = case[0]
    current = first
    merges = 0
    for i, other in enumerate(others):
        both = type(want) is type(other) and isinstance(other, (list, dict))
        want = merged(want, case[1][i])
        got = merge_dicts(current, other)
        eq(got, want, 'merged')
        if both:
            check(got is current, 'the first object was not updated in place')
            merges += bool(other)
        current = got
        eq(others, case[1], 'merging altered an object merged into the first one')
    return merges


scal = st.one_of(st.integers(0, 2), st.sampled_from(['', 'a', b'a', None, True, False, 1.0, 0.5]))
deep = st.recursive(scal, lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple), st.dictionaries(st.sampled_from('abc'), c, max_size=3),
                                              st.frozensets(st.integers(0, 2), max_size=2), st.sets(st.integers(0, 2), max_size=2)), max_leaves=8)


class Unequal(Exception):
    pass


def model_equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Unequal(a, b, InequalityReason.LENGTH_MISMATCH)
        for c, d in zip(a, b):
            model_equal(c, d)
    elif isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            raise Unequal(a, b, InequalityReason.LENGTH_MISMATCH)
        for k in a:
            if k not in b:
                raise Unequal(k, None, InequalityReason.KEY_NOT_FOUND)
            model_equal(a[k], b[k])
    elif isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and len(a) != len(b):
        raise Unequal(a, b, InequalityReason.LENGTH_MISMATCH)
    elif a != b:
        raise Unequal(a, b, InequalityReason.NOT_EQUAL)


@st.composite
def pairs(draw):
    if draw(st.integers(0, 2)) == 0:
        flat = st.dictionaries(st.sampled_from('abc'), st.sampled_from([None, 0, False, '', 1]), max_size=3)
        a = draw(flat)
        b = dict(a)
        for k in draw(st.lists(st.sampled_from('abcd'), max_size=2)):
            if b and draw(st.booleans()):
                b.pop(draw(st.sampled_from(sorted(b))))
            b[k] = draw(st.sampled_from([None, 0, False, '', 1]))
        return draw(st.sampled_from([(a, b), ([a], (b,)), ({'k': a}, {'k': b})]))
    a = draw(deep)
    if draw(st.integers(0, 3)) == 0:
        return a, draw(deep)

    def alter(v, budget):
        """a copy with at most a few differences"""
        if draw(st.integers(0, 9)) == 0 and budget[0]:
            budget[0] -= 1
            return draw(deep)
        if isinstance(v, (list, tuple)):
            items = [alter(e, budget) for e in v]
            if budget[0] and draw(st.integers(0, 9)) == 0:
                budget[0] -= 1
                items.append(draw(scal))
            return draw(st.sampled_from([list, tuple, type(v)]))(items)
        if isinstance(v, dict):
            items = [(k, alter(e, budget)) for k, e in v.items()]
            if draw(st.booleans()):
                items.reverse()
            if items and budget[0] and draw(st.integers(0, 2)) == 0:
                budget[0] -= 1
                items[0] = ('other', items[0][1])
            return dict(items)
        return v
    return a, alter(a, [draw(st.integers(0, 2))])


@prop.facet(pairs(), 'objects are containers', quick=2000)
def comparing(case):
    """assert_equal"""
    a, b = case
    before = copy.deepcopy(case)
    try:
        model_equal(a, b)
        want = None
    except Unequal as e:
        want = e.args
    try:
        assert_equal(a, b)
        got = None
    except Inequal as e:
        got = e.obj1, e.obj2, e.reason
    eq(got, want, 'comparing %r with %r' % (a, b))
    eq(case, before, 'arguments were altered')
    return isinstance(a, (list, tuple, dict))


class Colour(enum.Enum):
    RED = 1
    BLUE = 'blue'
    NOTHING = None


class Comp(ComparableEnum):
    RED = 1
    BLUE = 'blue'


class Weird:
    """equal to 5, though its hash differs"""
    def __eq__(self, other):
        return other == 5 or isinstance(other, Weird)

    __hash__ = object.__hash__


class Never:
    def __eq__(self, other):
        return False

    __hash__ = None


SPECIAL = {'weird': Weird(), 'never': Never()}
val = st.one_of(st.none(), st.sampled_from([0, '', False, True, 5, 'x', 'blue', 1]), st.sampled_from([Colour.RED, Colour.BLUE, Comp.RED, Comp.BLUE, Colour.NOTHING]), st.sampled_from(sorted(SPECIAL)))


@prop.facet(st.tuples(val, st.lists(val, max_size=4), st.dictionaries(st.sampled_from('abc'), val, max_size=3), st.sampled_from(['default', True, False, 0, 1]), st.booleans(), st.booleans()),
            'always', quick=600)
def updates(case):
    """enum_value, length, contains, queue_iterator, update_*_if_*"""
    v, items, d, flag, present, option = case
    v = SPECIAL.get(v, v) if isinstance(v, str) else v
    items = [SPECIAL.get(i, i) if isinstance(i, str) else i for i in items]
    check(enum_value(v) is (v.value if isinstance(v, enum.Enum) else v), 'enum_value(%r)', v)
    for seq in (items, tuple(items), (i for i in items), iter(items)):
        eq(length(seq), len(items), 'length')
    want = False
    for i in items:
        if v == i:
            want = True
            break
    for seq in (items, tuple(items), (i for i in items), iter(items)):
        check(contains(v, seq) is want, 'contains(%r, %r) should be %r', v, items, want)
    for cls in (queue.Queue, queue.LifoQueue):
        q = cls()
        for i in items:
            q.put(i)
        out = []
        for n, i in enumerate(queue_iterator(q)):
            out.append(i)
            if n == 0 and option:
                q.put('added')
        if cls is queue.Queue:
            check(len(out) == len(items) + (option and bool(items)) and all(a is b for a, b in zip(out, items)), 'queue_iterator gave %r', out)
        check(q.empty(), 'the queue has not been emptied')

    for update in (update_key_if_not_none, update_if_not_none, update_key_if_none):     # the latter ones are former names
        want = dict(d)
        got = dict(d)
        if v is not None:
            want['k'] = v
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check(update(got, 'k', v) is got, 'the dictionary was not returned')
        check(all(got[k] is want[k] for k in want) and len(got) == len(want), 'update_key_if_not_none')
    target, want = {'a': 'old', 'z': 1}, {'a': 'old', 'z': 1}
    want.update({k: x for k, x in d.items() if x is not None})
    check(update_key_if_not_none(target, d) is target, 'the dictionary was not returned')
    eq(target, want, 'update_key_if_not_none with a dictionary')
    got, want = dict(d), dict(d)
    if (bool(v) if flag == 'default' else flag):
        want['a'] = v
    check(update_key_if_true(got, 'a', v, *(() if flag == 'default' else (flag,))) is got, 'the dictionary was not returned')
    check(all(got[k] is want[k] for k in want) and len(got) == len(want), 'update_key_if_true')

    class O:
        pass
    for current in ('missing', None, 0, 'x'):
        for unconditional in (False, True):
            o = O()
            if current != 'missing':
                o.attr = current
            if unconditional:
                want = current if v is None else v
                fails = False
            elif current == 'missing':
                fails = not option
                want = v
            else:
                fails = False
                want = v if current is None else current
            if fails:
                raises(AttributeError, update_attr_if_none, o, 'attr', v, on_attribute_error=option)
                check(not hasattr(o, 'attr'), 'attribute was set')
            else:
                check(update_attr_if_none(o, 'attr', v, on_attribute_error=option, if_value_is_not_none=unconditional) is o, 'the object was not returned')
                check(getattr(o, 'attr', 'missing') is want, 'attribute')
    return True
