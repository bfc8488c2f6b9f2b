"""P39: memory pressure - which level is in effect, who gets told about it, and sizes of objects"""
import sched as S           # before satella
import gc
import io
import operator
import re
import sys
import types
import warnings

import psutil
from hypothesis import strategies as st

from harness import Property, check, eq, in_child, patched, HarnessError
from gen import op

from satella.instrumentation.memory import MemoryPressureManager, Any, All, Not, GlobalAbsoluteValue, GlobalRelativeValue, LocalAbsoluteValue, LocalRelativeValue, CustomCondition, install_force_gc_collect, get_size, dump_memory_on, MB
from satella.instrumentation.memory.conditions import BaseCondition

prop = Property('P39', ['memory usage is what a stand-in for psutil tells', 'callbacks neither fail nor take longer than the check interval', 'exactly at a threshold both answers are accepted'])
warnings.simplefilter('ignore')

svmem = psutil.virtual_memory()
pmem = psutil.Process().memory_info()


class World:
    """What is told about memory"""
    def __init__(self):
        self.flags = [False] * 4
        self.available, self.total, self.rss = 80 * MB, 100 * MB, 20 * MB

    def virtual_memory(self):
        return svmem._replace(total=self.total, available=self.available, percent=100 - 100 * self.available / self.total, used=self.total - self.available, free=self.available)

    def memory_info(self):
        return pmem._replace(rss=self.rss, vms=self.rss * 2)


leaf = st.one_of(op('custom', st.integers(0, 3), st.sampled_from(['bool', 'bool', 'int', 'object'])), op('ga', st.sampled_from([10, 30, 50])), op('gr', st.sampled_from([10, 25, 60])), op('la', st.sampled_from([5, 15, 40])), op('lr', st.sampled_from([10, 30, 70])), op('subclass', st.integers(0, 3)))
condition = st.recursive(leaf, lambda x: st.one_of(st.tuples(st.just('any'), st.lists(x, max_size=3)), st.tuples(st.just('all'), st.lists(x, max_size=3)), st.tuples(st.just('not'), x)), max_leaves=4)
MAXIMUM = 50 * MB


class Sub(BaseCondition):
    def __init__(self, f):
        self.f = f

    def can_fire(self, local_memory_data, local_maximum_consume):
        return self.f(local_memory_data.rss, local_maximum_consume)


def build(c, world):
    """-> condition, model of it (None: either)"""
    if c[0] == 'custom':
        def fun():
            v = world.flags[c[1]]
            return v if c[2] == 'bool' else ((c[1] + 1 if v else 0) if c[2] == 'int' else (['x'] if v else []))
        return CustomCondition(fun), lambda: world.flags[c[1]]
    if c[0] == 'subclass':
        return Sub(lambda rss, maximum: (rss, maximum) == (world.rss, MAXIMUM) and world.flags[c[1]]), lambda: world.flags[c[1]]
    if c[0] == 'ga':
        return GlobalAbsoluteValue(c[1] * MB), lambda: less(world.available, c[1] * MB)
    if c[0] == 'gr':
        return GlobalRelativeValue(c[1]), lambda: less(world.available * 100, c[1] * world.total)
    if c[0] == 'la':
        return LocalAbsoluteValue(c[1] * MB), lambda: less(MAXIMUM - world.rss, c[1] * MB)
    if c[0] == 'lr':
        return LocalRelativeValue(c[1]), lambda: less((MAXIMUM - world.rss) * 100, c[1] * MAXIMUM)
    if c[0] == 'not':
        r, m = build(c[1], world)
        return Not(r), lambda: None if m() is None else not m()
    parts = [build(x, world) for x in c[1]]

    def model():
        vs = [m() for _, m in parts]
        decisive = c[0] == 'any'
        if decisive in vs:
            return decisive
        return None if None in vs else not decisive
    return (Any if c[0] == 'any' else All)(*[r for r, _ in parts]), model


def less(a, b):
    return None if abs(a - b) <= 1e-9 * abs(b) else a < b


change = st.one_of(op('flag', st.integers(0, 3)), op('flag', st.integers(0, 3)), op('available', st.integers(1, 100)), op('rss', st.integers(1, 50)), op('total', st.sampled_from([100, 200])))


def apply(world, o):
    if o[0] == 'flag':
        world.flags[o[1]] = not world.flags[o[1]]
    else:
        setattr(world, o[0], o[1] * MB)


@prop.facet(st.tuples(condition, st.lists(change, min_size=1, max_size=10)), 'the answer changed', quick=1000, thorough=20000)
def conditions(case):
    """Conditions and their combinations, against the documented meaning"""
    c, changes = case
    world = World()
    real, model = build(c, world)
    answers = set()
    with patched(psutil, virtual_memory=world.virtual_memory):
        for o in changes:
            apply(world, o)
            want = model()
            got = real.can_fire(world.memory_info(), MAXIMUM)
            if want is not None:
                eq(bool(got), want, 'can fire with %r available of %r, rss %r of %r, flags %r' % (world.available / MB, world.total / MB, world.rss / MB, MAXIMUM / MB, world.flags))
                answers.add(want)
    return len(answers) > 1


INTERVAL = 8
levels = st.lists(condition, max_size=4)
simple_levels = st.integers(1, 4).map(lambda n: [('custom', i, 'bool') for i in range(n)])
level_no = st.integers(0, 4)
steps = st.lists(st.one_of(op('change', change), op('change', change), op('change', change), op('changes', st.lists(change, max_size=3)), op('wait'), op('register', st.sampled_from(['entered', 'left', 'normal', 'remains', 'remains', 'cleanup', 'custom cleanup']), level_no, st.integers(0, 3)), op('register', st.sampled_from(['entered', 'left', 'normal', 'remains', 'cleanup']), level_no, st.integers(0, 3)),
                            op('cancel', st.integers(0, 40)), op('drop', st.integers(0, 40)), op('drop', st.integers(0, 40)), op('stop'), op('resume'), op('resume'), op('gc', level_no), op('gc', level_no)), min_size=5, max_size=30)


@prop.facet(st.tuples(st.one_of(levels, simple_levels, simple_levels), steps, st.booleans(), st.booleans(), st.sampled_from([False, True, True, True])), 'several levels were passed at once, or a callback was called after a cancellation of another', quick=250, thorough=6000)
def manager(case):
    """Histories of changes, registrations and cancellations with the manager running in virtual time"""
    conditions_, program, as_string, log, everything = case
    return in_child(lambda: run_manager(conditions_, program, as_string, log, everything))


class Cleanable:
    def __init__(self, f):
        self.f = f

    def cleanup(self):
        self.f()

    def other(self):
        self.f()


def run_manager(conditions_, program, as_string, log, everything):
    world = World()
    psutil.virtual_memory = world.virtual_memory
    psutil.Process.memory_info = lambda self: world.memory_info()
    built = [build(c, world) for c in conditions_]
    calls, regs, interesting = [], [], [False]
    top = len(built)
    collections = []
    gc.collect = lambda *args: collections.append(args) or 0
    gc_level = []

    def main():
        mm = MemoryPressureManager(MAXIMUM, [r for r, _ in built] or None, check_interval='%ss' % (INTERVAL,) if as_string else INTERVAL, log_transitions=log)
        check(MemoryPressureManager() is mm, 'not a singleton')
        S._sleep(INTERVAL / 2)
        level, stopped, last_called, now = None, False, {}, 0

        def current():
            for i in reversed(range(top)):
                v = built[i][1]()
                if v is None:
                    return None
                if v:
                    return i + 1
            return 0
        level = current()
        if level is None:
            return False
        eq(mm.severity_level, level, 'severity level at start')

        def expected_calls():
            nonlocal level
            out = []        # lists of indices, each in any order
            if stopped:
                return out
            target = current()
            if target is None:
                raise Undecided()

            def those(kind, l):
                return [i for i, r in enumerate(regs) if r['alive'] and r['kind'] == kind and (l is None or r['level'] == l)]
            if abs(target - level) > 1:
                interesting[0] = True
            if target == level:
                group = []
                for i in those('remains', level):
                    if i not in last_called or now - last_called[i] >= regs[i]['rate'] * INTERVAL + INTERVAL / 4:
                        last_called[i] = now
                        group.append(i)
                return [group]
            while level < target:
                level += 1
                out.append(those('entered', level))
                out.append(those('cleanup', level))
                collections_due.extend([level] * gc_level.count(level))
            while level > target:
                out.append(those('left', level))
                level -= 1
                if not level:
                    out.append(those('normal', None))
            return out

        collections_due = []

        def tick():
            nonlocal now
            del calls[:]
            del collections[:]
            del collections_due[:]
            S._sleep(INTERVAL)
            now += INTERVAL
            groups = expected_calls()
            got = list(calls)
            for g in groups:
                eq(sorted(got[:len(g)]), sorted(g), 'called (out of %r, expected %r, level %s)' % (calls, groups, level))
                del got[:len(g)]
            eq(got, [], 'called (expected %r)' % (groups,))
            eq(mm.severity_level, level, 'severity level')
            eq(len(collections), len(collections_due), 'collections forced')
            if any(r['cancelled'] for r in regs) and calls:
                interesting[0] = True

        start = [('register', kind, l, rate) for l in range(top + 1) for kind, rate in (('entered', 0), ('left', 0), ('remains', 0), ('remains', 1), ('remains', 2), ('cleanup', 0), ('custom cleanup', 0))] + [('register', 'normal', 0, 0)]
        for o in (start if everything else []) + program:
            if o[0] == 'change':
                apply(world, o[1])
                tick()
            elif o[0] == 'changes':
                for c in o[1]:
                    apply(world, c)
                tick()
            elif o[0] == 'wait':
                tick()
            elif o[0] == 'stop':
                mm.stop()
                stopped = True
            elif o[0] == 'resume':
                mm.resume()
                stopped = False
            elif o[0] == 'gc':
                if o[1] <= top and o[1]:
                    install_force_gc_collect(o[1])
                    gc_level.append(o[1])
            elif o[0] == 'register':
                kind, l, rate = o[1:]
                if l > top:
                    continue
                i = len(regs)

                def f(i=i):
                    calls.append(i)
                r = {'kind': kind, 'level': l, 'rate': rate, 'alive': True, 'cancelled': False, 'cc': None, 'obj': None}
                if kind == 'entered':
                    r['cc'] = MemoryPressureManager.register_on_entered_severity(l)(f)
                elif kind == 'left':
                    r['cc'] = mm.register_on_left_severity(l)(f)
                elif kind == 'normal':
                    r['cc'] = MemoryPressureManager.register_on_memory_normal(f)
                elif kind == 'remains':
                    if rate:
                        r['cc'] = MemoryPressureManager.register_on_remaining_in_severity(l, rate * INTERVAL + INTERVAL / 4)(f)
                    else:
                        r['rate'] = -1
                        r['cc'] = MemoryPressureManager.register_on_remaining_in_severity(l)(f)
                else:
                    r['obj'] = Cleanable(f)
                    r['kind'] = 'cleanup'
                    if kind == 'cleanup':
                        MemoryPressureManager.cleanup_on_entered(l, r['obj'])
                    else:
                        MemoryPressureManager.cleanup_on_entered(l, r['obj'], operator.methodcaller('other'))
                regs.append(r)
            elif regs:
                field = 'cc' if o[0] == 'cancel' else 'obj'
                eligible = [r for r in regs if r[field] is not None]
                if eligible:
                    r = eligible[o[1] % len(eligible)]
                    if field == 'cc':
                        r['cc'].cancel()
                    r[field] = None
                    r['alive'], r['cancelled'] = False, True
        mm.terminate()
        return interesting[0]

    class Undecided(Exception):
        pass

    result = []

    def guarded():
        try:
            result.append(main())
        except Undecided:
            result.append(False)
        finally:
            MemoryPressureManager().terminate()

    S.Scheduler([], False, free_time=False).run(guarded)
    return result[0]


class Plain:
    pass


node = st.one_of(op('leaf', st.one_of(st.integers(), st.text(max_size=20), st.binary(max_size=20), st.none(), st.floats(allow_nan=False))), op('leaf', st.text(max_size=50)), op('bytearray', st.binary(max_size=30)),
                 op('list', st.lists(st.integers(0, 11), max_size=4)), op('tuple', st.lists(st.integers(0, 11), max_size=4)), op('dict', st.lists(st.tuples(st.text('abc', max_size=2), st.integers(0, 11)), max_size=4)),
                 op('set', st.lists(st.integers(), max_size=4)), op('frozenset', st.lists(st.text(max_size=3), max_size=4)), op('object', st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), st.integers(0, 11)), max_size=3)))


@prop.facet(st.tuples(st.lists(node, min_size=1, max_size=10), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9)), max_size=3)), 'some object was reachable in two ways', quick=500, thorough=10000)
def sizes(case):
    """Size of an object graph is the sum for its distinct parts"""
    nodes, backlinks = case
    objs = []
    for n in nodes:
        def ref(i):
            return objs[i % len(objs)] if objs else None
        if n[0] == 'leaf':
            o = n[1]
        elif n[0] == 'bytearray':
            o = bytearray(n[1])
        elif n[0] == 'list':
            o = [ref(i) for i in n[1]]
        elif n[0] == 'tuple':
            o = tuple(ref(i) for i in n[1])
        elif n[0] == 'dict':
            o = {k: ref(i) for k, i in n[1]}
        elif n[0] == 'set':
            o = set(n[1])
        elif n[0] == 'frozenset':
            o = frozenset(n[1])
        else:
            o = Plain()
            for k, i in n[1]:
                setattr(o, k, ref(i))
        objs.append(o)
    for i, j in backlinks:      # cycles
        a, b = objs[i % len(objs)], objs[j % len(objs)]
        if isinstance(a, list):
            a.append(b)
        elif isinstance(a, dict):
            a['link'] = b
        elif isinstance(a, Plain):
            a.link = b
    root = objs[-1]
    seen, todo, shared, total = {}, [root], False, 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            shared = True
            continue
        seen[id(o)] = o
        total += sys.getsizeof(o)
        if isinstance(o, dict):
            todo.extend(o.keys())
            todo.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo.extend(o)
        elif isinstance(o, Plain):
            todo.append(o.__dict__)
    eq(get_size(root), total, 'size')
    eq(get_size(root), total, 'size told again')
    for o in objs:
        check(get_size(o) >= sys.getsizeof(o), 'less than the object itself')
    return shared


@prop.facet(st.tuples(st.lists(st.one_of(st.lists(st.integers(0, 9), max_size=6), st.dictionaries(st.integers(0, 3), st.integers(0, 3)), st.tuples(st.integers(), st.just('s')), st.sets(st.integers(0, 40), max_size=12)), max_size=12)),
            'objects of several types', quick=300)
def memory_dumps(case):
    """Dumps of the memory tell of each object, and of totals for each type, the biggest first"""
    objects, = case
    out = io.StringIO()
    with patched(gc, get_objects=lambda *args: list(objects)):
        dump_memory_on(out)
    lines = out.getvalue().splitlines()
    told = [line for line in lines if line.startswith('object ')]
    eq(sorted(told), sorted('object %r type %s size %s bytes' % (o, type(o), sys.getsizeof(o)) for o in objects), 'objects')
    totals = {}
    for o in objects:
        size, n = totals.get(type(o), (0, 0))
        totals[type(o)] = size + sys.getsizeof(o), n + 1
    told = lines[len(lines) - len(totals):]
    eq(sorted(told), sorted('%s: %s bytes %s instances' % (t, size, n) for t, (size, n) in totals.items()), 'totals')
    sizes = [int(re.match(r'.*: (\d+) bytes', line).group(1)) for line in told]
    eq(sizes, sorted(sizes, reverse=True), 'order of totals')
    return len(totals) > 1
