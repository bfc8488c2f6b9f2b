import copy
import pickle
import warnings
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import (DirtyDict, KeyAwareDefaultDict, TwoWayDictionary, DictionaryView,
                                       CountingDict, DefaultDict, DictObject, apply_dict_object)

prop = Property('P03', ['keys (and values, for the two-way dictionary) are hashable'])
KEYS = [0, 1, 2, None, 4, '']        # some of these are false, which makes no difference
VALS = [10, 11, 12, None, 0, '']
key = st.sampled_from(KEYS)
val = st.sampled_from(VALS)
dct = st.dictionaries(key, val, max_size=5)


def map_eq(real, model, what):
    """Full read-side comparison of a mapping with a dict"""
    eq(dict(real.items()), model, what + ' items')
    eq(sorted(real, key=repr), sorted(model, key=repr), what + ' iteration')
    eq(sorted(real.keys(), key=repr), sorted(model, key=repr), what + ' keys')
    eq(sorted(real.values(), key=repr), sorted(model.values(), key=repr), what + ' values')
    eq(len(real), len(model), what + ' len')


def mapping_reads(real, model, what):
    map_eq(real, model, what)
    for k in KEYS + [6, False]:
        eq(k in real, k in model, '%s: %s in' % (what, k))
        eq(real.get(k, 'nope'), model.get(k, 'nope'), what + ' get')
        if k in model:
            eq(real[k], model[k], what + ' []')
        else:
            raises(KeyError, lambda: real[k])


mut_ops = (op('set', key, val), op('set', key, val), op('del', key), op('pop', key), op('popd', key),
           op('setdefault', key, val), op('update', dct), op('clear'), op('popitem'))


def apply_mut(o, x):
    """Apply a mutation to a mapping"""
    k = o[0]
    if k == 'set':
        x[o[1]] = o[2]
    elif k == 'del':
        del x[o[1]]
    elif k == 'pop':
        return x.pop(o[1])
    elif k == 'popd':
        return x.pop(o[1], 'dflt')
    elif k == 'setdefault':
        return x.setdefault(o[1], o[2])
    elif k == 'update':
        x.update(o[1])
    elif k == 'clear':
        x.clear()
    else:
        raise HarnessError('unknown op %s' % (o,))


@prop.facet(st.tuples(dct, ops(*mut_ops, op('clear_dirty'), op('swap'), op('copyclear'), op('copy'))),
            'the dirty flag was both raised and cleared', quick=2000)
def dirty_dict(case):
    init, program = case
    d, m = DirtyDict(init), dict(init)
    dirty = False
    raised = cleared = False
    for o in program:
        k = o[0]
        before = dict(m)
        if k == 'clear_dirty':
            d.clear_dirty()
            dirty = False
            cleared = True
        elif k == 'swap':
            got = d.swap_and_clear_dirty()
            check(type(got) is dict, 'plain dict')
            eq(got, m, 'swap_and_clear_dirty')
            m = {}
            dirty = False
            got[77] = 1
        elif k == 'copyclear':
            got = d.copy_and_clear_dirty()
            check(type(got) is dict, 'plain dict')
            eq(got, m, 'copy_and_clear_dirty')
            dirty = False
            cleared = True
            got[77] = 1
        elif k == 'copy':
            d2 = copy.copy(d)
            eq(d2.dirty, dirty, 'dirty of a copy')
            map_eq(d2, m, 'copy')
            d2[78] = 3
            check(78 not in d, 'copies are independent')
        elif k == 'popitem':
            if m:
                a, b = d.popitem()
                eq(m.pop(a), b, 'popitem')
                dirty = True
            else:
                raises(KeyError, d.popitem)
        else:
            eq(Outcome.of(apply_mut, o, d), Outcome.of(apply_mut, o, m), 'outcome of %s' % (o,))
            if m != before:
                dirty = True
        raised = raised or dirty
        eq(bool(d.dirty), dirty, 'dirty after %s' % (o,))
        eq(bool(d), bool(m), 'bool')
        mapping_reads(d, m, str(o))
    return raised and cleared


@prop.facet(st.tuples(dct, ops(*mut_ops[:4], op('setdefault', key, val), op('update', dct), op('get', key),
                               op('get', key))),
            '>=1 default produced and >=1 removal', quick=1000)
def key_aware_default_dict(case):
    init, program = case
    calls = []

    def factory(k):
        calls.append(k)
        return k, 1000

    d, m = KeyAwareDefaultDict(factory, init), dict(init)
    produced = removed = 0
    for o in program:
        n = len(calls)
        if o[0] == 'get':
            if o[1] in m:
                eq(d[o[1]], m[o[1]], 'get')
                eq(len(calls), n, 'factory not called for present keys')
            else:
                v = d[o[1]]
                eq(v, (o[1], 1000), 'default')
                eq(calls[n:], [o[1]], 'factory called once with the key')
                m[o[1]] = v
                produced += 1
        elif o[0] == 'del':
            removed += o[1] in m
            eq(Outcome.of(apply_mut, o, d), Outcome.of(apply_mut, o, m), 'outcome of %s' % (o,))
        elif o[0] == 'pop':
            if o[1] in m:
                eq(d.pop(o[1]), m.pop(o[1]), 'pop')
        elif o[0] == 'setdefault':
            if o[1] in m:
                eq(d.setdefault(o[1], o[2]), m[o[1]], 'setdefault')
        else:
            apply_mut(o, d)
            apply_mut(o, m)
        map_eq(d, m, str(o))
    return bool(produced and removed)


@prop.facet(st.tuples(dct, ops(op('get', key), op('set', key, val), op('del', key), op('update', dct),
                               op('touch', key))), '>=1 read of a missing key and >=1 of a present one', quick=800)
def default_dict(case):
    init, program = case
    d, m = DefaultDict(list, init), dict(init)
    miss = hit = 0
    for o in program:
        if o[0] in ('get', 'touch'):
            if o[1] in m:
                eq(d[o[1]], m[o[1]], 'get')
                hit += 1
            else:
                v = d[o[1]]
                eq(v, [], 'default')
                v.append(5)
                miss += 1
        else:
            eq(Outcome.of(apply_mut, o, d), Outcome.of(apply_mut, o, m), 'outcome of %s' % (o,))
        map_eq(d, m, str(o))
        for k in KEYS + [6]:
            eq(k in d, k in m, 'contains')
    return bool(miss and hit)


@prop.facet(st.tuples(st.lists(key, max_size=10), ops(op('count', key), op('countn', key, st.integers(-2, 5)),
                                                     op('clear'))), '>=2 different elements counted', quick=600)
def counting_dict(case):
    init, program = case
    d = CountingDict(init)
    m = {}
    for x in init:
        m[x] = m.get(x, 0) + 1
    nt = False
    for o in program:
        if o[0] == 'count':
            d.count(o[1])
            m[o[1]] = m.get(o[1], 0) + 1
        elif o[0] == 'countn':
            d.count(o[1], o[2])
            m[o[1]] = m.get(o[1], 0) + o[2]
        else:
            d.clear()
            m = {}
        map_eq(d, m, str(o))
        for k in m:
            eq(d[k], m[k], '[]')
        eq(bool(d), bool(m), 'bool')
        nt = nt or len(m) > 1
    return nt


@prop.facet(st.tuples(st.lists(st.tuples(key, val), max_size=5),
                      ops(op('set', key, val), op('set', key, val), op('rset', val, key), op('del', key),
                          op('rdel', val), op('pop', key), op('rpop', val), op('update', dct), op('clear'),
                          op('popitem'), op('setdefault', key, val))),
            'a rebinding or a rejected duplicate value occurred', quick=2500)
def two_way(case):
    init, program = case
    as_dict = dict(init)
    if len(set(as_dict.values())) != len(as_dict):
        raises(ValueError, TwoWayDictionary, as_dict)
        return True
    d, m = TwoWayDictionary(init), dict(as_dict)
    nt = False

    def verify(what):
        r = {v: k for k, v in m.items()}
        check(len(r) == len(m), 'model')
        mapping_reads(d, m, what)
        map_eq(d.reverse, r, what + ' reverse')
        for k, v in m.items():
            eq(d.reverse[v], k, 'reverse lookup')
        for v in VALS + [13, 16]:
            eq(v in d.reverse, v in r, 'reverse contains')
        check(d.reverse.reverse is d or dict(d.reverse.reverse.items()) == m, 'reverse of reverse')

    def assign(dst, mm, k, v, ours):
        """assign k=v to dst, with mm being its model; returns the new model"""
        holder = [a for a, b in mm.items() if b == v]
        if holder and holder[0] != k:
            raises(ValueError, dst.__setitem__, k, v)
            return mm, True
        dst[k] = v
        mm = dict(mm)
        rebound = k in mm
        mm[k] = v
        return mm, rebound

    verify('init')
    for o in program:
        k = o[0]
        if k == 'set':
            if m.get(o[1], 'nope') == o[2]:
                continue
            m, x = assign(d, m, o[1], o[2], True)
            nt = nt or x
        elif k == 'rset':
            r = {v: kk for kk, v in m.items()}
            if r.get(o[1], 'nope') == o[2]:
                continue
            r, x = assign(d.reverse, r, o[1], o[2], False)
            m = {kk: v for v, kk in r.items()}
            nt = nt or x
        elif k in ('del', 'pop'):
            eq(Outcome.of(apply_mut, o, d), Outcome.of(apply_mut, o, m), 'outcome of %s' % (o,))
        elif k in ('rdel', 'rpop'):
            r = {v: kk for kk, v in m.items()}
            oo = (k[1:], o[1])
            eq(Outcome.of(apply_mut, oo, d.reverse), Outcome.of(apply_mut, oo, r), 'outcome of %s' % (o,))
            m = {kk: v for v, kk in r.items()}
        elif k == 'update':
            # only conflict-free updates
            upd = {kk: v for kk, v in o[1].items() if v not in m.values()}
            if len(set(upd.values())) != len(upd):
                continue
            d.update(upd)
            m.update(upd)
        elif k == 'clear':
            d.clear()
            m = {}
        elif k == 'popitem':
            if m:
                a, b = d.popitem()
                eq(m.pop(a), b, 'popitem')
        elif k == 'setdefault':
            if o[1] in m or o[2] not in m.values():
                eq(d.setdefault(o[1], o[2]), m.setdefault(o[1], o[2]), 'setdefault')
        verify(str(o))
    with expecting(KeyError if nt else ZeroDivisionError):
        with d as d2:
            check(d2 is d, 'context manager')
            raise KeyError() if nt else ZeroDivisionError()
    return nt


@prop.facet(st.tuples(st.lists(dct, min_size=1, max_size=4), st.booleans(), st.booleans(),
                      ops(op('set', key, val), op('set', key, val), op('del', key), op('del', key), op('pop', key),
                          op('poke', st.integers(0, 3), key, val), op('copy'), op('deepcopy'))),
            '>=2 layers with a shadowed key and >=1 deletion', quick=2500)
def dictionary_view(case):
    layers, propagate, same, program = case
    real_layers = [dict(x) for x in layers]
    layers = [dict(x) for x in layers]
    d = DictionaryView(*real_layers, propagate_deletes=propagate, assign_to_same_dict=same)
    nt = any(set(a) & set(b) for i, a in enumerate(layers) for b in layers[i + 1:])
    deleted = False

    def flat():
        out = {}
        for x in reversed(layers):
            out.update(x)
        return out

    def model_set(k, v):
        if same:
            for x in layers:
                if k in x:
                    x[k] = v
                    return
        layers[0][k] = v

    def model_del(k):
        if propagate:
            for x in layers:
                if k in x:
                    del x[k]
                    return
            raise KeyError(k)
        del layers[0][k]

    for o in program:
        k = o[0]
        if k == 'set':
            d[o[1]] = o[2]
            model_set(o[1], o[2])
        elif k == 'del':
            a = Outcome.of(d.__delitem__, o[1])
            b = Outcome.of(model_del, o[1])
            eq(a, b, 'outcome of %s' % (o,))
            deleted = deleted or a[0] == 'ok'
        elif k == 'pop':
            if o[1] in layers[0] or (propagate and o[1] in flat()):
                want = flat()[o[1]]
                eq(d.pop(o[1]), want, 'pop')
                model_del(o[1])
        elif k == 'poke':
            # the underlying dictionaries are only viewed
            i = o[1] % len(layers)
            real_layers[i][o[2]] = o[3]
            layers[i][o[2]] = o[3]
        elif k == 'copy':
            d2 = copy.copy(d)
            map_eq(d2, flat(), 'copy')
        elif k == 'deepcopy':
            d2 = copy.deepcopy(d)
            map_eq(d2, flat(), 'deepcopy')
            d2[99] = 1
            check(99 not in d, 'deep copy is independent')
            below = sorted(set(flat()) - set(layers[0]), key=repr)
            if below:
                if propagate:
                    del d2[below[0]]
                else:
                    raises(KeyError, d2.__delitem__, below[0])
                for d3 in (copy.deepcopy(d), copy.copy(copy.deepcopy(d))):
                    d3[below[0]] = 98
                    eq(d3[below[0]], 98, 'assigned')
                    eq(Outcome.of(d3.__delitem__, below[0])[0], 'ok' if propagate or not same else 'exc',
                       'a copy keeps its policy')
        mapping_reads(d, flat(), str(o))
        eq(real_layers, layers, 'layers after %s' % (o,))
    return nt and deleted


names = st.sampled_from(['a', 'b', 'test', 'value', 'x1', '_p'])


@prop.facet(st.tuples(st.dictionaries(names, val, max_size=5),
                      ops(op('seta', names, val), op('set', names, val), op('dela', names), op('del', names),
                          op('copy'), op('deepcopy'), op('wrap'), op('pickle'))),
            'attribute and item access were both used to modify', quick=1200)
def dict_object(case):
    init, program = case
    d, m = DictObject(init), dict(init)
    used = set()
    for o in program:
        k = o[0]
        if k == 'seta':
            setattr(d, o[1], o[2])
            m[o[1]] = o[2]
            used.add('a')
        elif k == 'set':
            d[o[1]] = o[2]
            m[o[1]] = o[2]
            used.add('i')
        elif k == 'dela':
            if o[1] in m:
                delattr(d, o[1])
                del m[o[1]]
                used.add('a')
            else:
                raises(AttributeError, delattr, d, o[1])
        elif k == 'del':
            eq(Outcome.of(apply_mut, o, d), Outcome.of(apply_mut, o, m), 'outcome of %s' % (o,))
            used.add('i')
        elif k in ('copy', 'deepcopy'):
            d2 = copy.copy(d) if k == 'copy' else copy.deepcopy(d)
            check(isinstance(d2, DictObject), 'copy type')
            eq(d2, m, 'copy')
            d2.zzz = 5
            check('zzz' not in d, 'copies are independent')
        elif k == 'wrap':
            eq(DictObject(d), m, 'DictObject of a DictObject')
        elif k == 'pickle':
            d2 = pickle.loads(pickle.dumps(d))
            check(isinstance(d2, DictObject), 'pickle type')
            eq(d2, m, 'pickle')
        eq(dict(d), m, str(o))
        check(d == m and m == d and isinstance(d, dict), 'still a dict')
        for n in ['a', 'b', 'test', 'value', 'x1', '_p', 'nope']:
            eq(hasattr(d, n), n in m, 'hasattr')
            if n in m:
                eq(getattr(d, n), m[n], 'getattr')
            else:
                raises(AttributeError, getattr, d, n)
    return len(used) == 2


nested = st.recursive(st.one_of(val, st.none(), st.text(max_size=3)),
                      lambda s: st.one_of(st.lists(s, max_size=3), st.dictionaries(names, s, max_size=3)), max_leaves=12)


@prop.facet(nested, 'contains a nested dict', quick=600)
def apply_dict_object_(case):
    before = repr(case)
    out = apply_dict_object(case)
    eq(out, case, 'equality')
    eq(repr(case), before, 'input untouched')
    count = [0]

    def walk(o, i):
        if isinstance(i, dict):
            check(isinstance(o, DictObject), 'every dict becomes a DictObject, got %r', type(o))
            count[0] += 1
            for k in i:
                walk(getattr(o, k), i[k])
        elif isinstance(i, list):
            check(isinstance(o, list), 'lists stay')
            for a, b in zip(o, i):
                walk(a, b)

    walk(out, case)
    return count[0] > 1
