"""P34: the tree of metrics: getMetric(), levels and resets"""
import sched as S       # before satella

import string

from hypothesis import strategies as st

from harness import Property, check, eq, raises, Violation
from gen import op

from satella.exceptions import MetricAlreadyExists
from satella.instrumentation.metrics import getMetric, MetricLevel, MetricData, MetricDataCollection

prop = Property('P34', ['whether a DISABLED metric reports what it had handled before is left unspecified'])

names = st.sampled_from(['', 'a', 'b', 'a.b', 'a.c', 'a.b.c', 'a.b.d', 'ab', 'ab.c', 'b.a', 'b.a.a', 'a.bc', 'a.bc.d'])
kinds = st.sampled_from(['base', 'base', 'int', 'int', 'counter', 'empty', 'float'])
levels = st.sampled_from([None, None, None, MetricLevel.RUNTIME, MetricLevel.DEBUG, MetricLevel.INHERIT, MetricLevel.DISABLED])
set_levels = st.sampled_from([MetricLevel.RUNTIME, MetricLevel.DEBUG, MetricLevel.INHERIT, MetricLevel.DISABLED, MetricLevel.RUNTIME, MetricLevel.DEBUG])
LEAVES = ('int', 'counter', 'float')


class Node:
    def __init__(self, name, kind, level, parent):
        self.name, self.kind, self.own, self.parent = name, kind, level, parent
        self.children = []
        self.value = 0
        self.real = None

    @property
    def level(self):
        n = self
        while n.own == MetricLevel.INHERIT:
            n = n.parent
        return n.own

    def below(self):
        for c in self.children:
            yield c
            yield from c.below()

    def report(self, sure, out, prefix=''):
        """out: {name: (value, is it certain)}"""
        sure = sure and self.level != MetricLevel.DISABLED
        mine = self.name.split('.')[-1]
        name = prefix + '.' + mine if prefix and mine else prefix + mine
        if self.kind in LEAVES:
            out[name] = self.value, sure
        elif self.kind == 'base':
            for c in self.children:
                if c.level <= self.level or not sure:
                    c.report(sure and c.level <= self.level, out, name)


@prop.facet(st.lists(st.one_of(op('get', names, kinds, levels), op('get', names, kinds, levels), op('get', names, kinds, levels), op('level', st.integers(0, 30), set_levels),
                               op('put', st.integers(0, 30), st.integers(1, 9), st.sampled_from(['runtime', 'debug', 'int', 'runtime'])), op('put', st.integers(0, 30), st.integers(1, 9), st.sampled_from(['runtime', 'debug', 'int', 'runtime'])),
                               op('reset', st.integers(0, 30))), min_size=4, max_size=30),
            'levels other than the default, or a reset, or a conflict', quick=1500)
def tree(case):
    """Histories of getting, setting levels of, using and resetting metrics"""
    getMetric('').reset()
    real_root = getMetric('', metric_level=MetricLevel.RUNTIME)
    root = Node('', 'base', MetricLevel.RUNTIME, None)
    root.real = real_root
    nodes = {'': root}
    nt = False

    def audit():
        for n in nodes.values():
            if n.real is None:
                continue
            eq(n.real.level, n.level, 'level of %r' % (n.name,))
            eq(n.real.get_fully_qualified_name(), n.name, 'fully qualified name')
            out = {}
            n.report(True, out)
            got = {md.name: md.value for md in n.real.to_metric_data().values}
            for k, v in got.items():
                check(k in out, '%r reports %r = %r', n.name, k, v)
                eq(v, out[k][0], 'value of %r reported by %r' % (k, n.name))
            for k, (v, sure) in out.items():
                check(k in got or not sure, '%r does not report %r', n.name, k)

    for o in case:
        known = [n for n in nodes.values() if n.real is not None]
        if o[0] == 'get':
            name, kind, level = o[1:]
            if name == '':
                kind = 'base'
                if level == MetricLevel.INHERIT:
                    level = None
            if name in nodes:
                n = nodes[name]
                if n.kind != kind:
                    e = raises(MetricAlreadyExists, getMetric, name, kind, level)
                    eq((e.name, e.requested_type, e.existing_type), (name, kind, n.kind), 'details of the exception')
                    nt = True
                    continue
                real = getMetric(name, kind, level)
                check(n.real is None or n.real is real, 'getMetric(%r) gave another metric', name)
                n.real = real
                if level is not None:
                    n.own = level
            else:
                parts = name.split('.')
                ancestors = ['.'.join(parts[:i]) for i in range(1, len(parts))]
                if any(a in nodes and nodes[a].kind in LEAVES for a in ancestors):
                    for _ in range(2):
                        raises(TypeError, getMetric, name, kind, level)
                    nt = True
                    continue
                real = getMetric(name, kind, level)
                parent = root
                for a in ancestors + [name]:
                    if a not in nodes:
                        nodes[a] = Node(a, kind if a == name else 'base', MetricLevel.INHERIT if level is None else level, parent)
                        parent.children.append(nodes[a])
                    parent = nodes[a]
                nodes[name].real = real
            nt = nt or level not in (None, MetricLevel.INHERIT)
        elif o[0] == 'level':
            n = known[o[1] % len(known)]
            if n is root and o[2] == MetricLevel.INHERIT:
                raises(AssertionError, setattr, n.real, 'level', o[2])
                continue
            n.real.level = o[2] if o[1] % 2 else int(o[2])
            n.own = o[2]
            nt = True
        elif o[0] == 'put':
            n = known[o[1] % len(known)]
            what = MetricLevel.DEBUG if o[3] == 'debug' else MetricLevel.RUNTIME
            f = {'runtime': n.real.runtime, 'debug': n.real.debug, 'int': lambda v: n.real.handle(int(what), v)}[o[3]]
            accepted = n.level >= what
            if accepted and n.kind == 'base':
                raises(TypeError, f, o[2])
            else:
                f(o[2])
                if accepted and n.kind in LEAVES:
                    n.value = n.value + o[2] if n.kind == 'counter' else o[2]
        else:
            n = known[o[1] % len(known)]
            n.real.reset()
            gone = list(n.below())
            for g in gone:
                del nodes[g.name]
            n.children = []
            if n is root:
                root.own = MetricLevel.RUNTIME
            nt = nt or bool(gone)
            check(getMetric(n.name, n.kind) is n.real, 'a metric that was reset is another one now')
            # what was held from before is not reported
            for g in gone:
                if g.real is not None and g.kind in LEAVES:
                    g.real.runtime(77)
        audit()
    return nt


@prop.facet(st.text(st.one_of(st.sampled_from('aZ_:09.'), st.characters(), st.sampled_from('ßıſfiŉé-/ K')), min_size=1, max_size=4), 'a character that is not ASCII', quick=400)
def naming(case):
    """ValueError on names with forbidden characters, and only on these"""
    allowed = string.ascii_letters + string.digits + ':_.'
    bad = [c for c in case if c not in allowed]
    if bad:
        raises(ValueError, getMetric, case, 'int')
    elif all(case.split('.')):
        getMetric('').reset()
        m = getMetric(case, 'int')
        eq(m.get_fully_qualified_name(), case, 'fully qualified name')
        m.runtime(5)
        eq({(x.name, x.value) for x in getMetric().to_metric_data().values}, {(case, 5)}, 'reported')
    return any(ord(c) > 127 for c in bad)


@prop.facet(st.tuples(st.sampled_from(['a', 'a.b', 'x']), st.fixed_dictionaries({}, optional={'enable_timestamp': st.just(True), 'internal': st.just(True), 'labels': st.just({'k': 1}), 'count_calls': st.booleans()}),
                      st.sampled_from(['a.b.c', 'x.y', 'z', 'a.q'])), 'with arguments', quick=60)
def arguments(case):
    """Arguments are for the last metric only"""
    name, kwargs, other = case
    getMetric('').reset()
    m = getMetric(name + '.first', 'counter', **kwargs)
    o = getMetric(other + '.second', 'counter', count_calls=False)
    m.runtime(1)
    o.runtime(2)
    got = {md.name: md for md in getMetric().to_metric_data().values}
    md = got[other + '.second']
    eq((md.value, md.timestamp, md.internal, dict(md.labels)), (2, None, False, {}), 'metric without any arguments')
    md = got[name + '.first']
    eq((md.value, md.timestamp is not None, md.internal, dict(md.labels)), (1, 'enable_timestamp' in kwargs, 'internal' in kwargs, kwargs.get('labels', {})), 'metric with arguments')
    eq(md.timestamp, m.get_timestamp(), 'timestamp')
    return bool(kwargs)


@prop.facet(st.tuples(st.lists(st.lists(st.tuples(st.sampled_from(['a.b', 'a.c', 'a.b.c', 'a', 'd']), st.integers(1, 5)), min_size=1, max_size=3), min_size=2, max_size=3), S.schedules(), st.booleans()), 'the same name in two threads', quick=400, thorough=10000)
def threads(case):
    """Threads calling getMetric() at the same time get the same metrics"""
    programs, schedule, trace = case
    getMetric('').reset()
    sch = S.Scheduler(schedule, trace, free_time=False)
    got = []

    def runner(program):
        def run():
            for name, v in program:
                m = getMetric(name + '.leaf', 'counter')
                got.append((name, m))
                m.runtime(v)
        return run

    sch.run(*[runner(p) for p in programs])
    want = {}
    for p in programs:
        for name, v in p:
            want[name + '.leaf'] = want.get(name + '.leaf', 0) + v
    by = {}
    for name, m in got:
        check(by.setdefault(name, m) is m, 'two metrics called %r', name)
    data = [(md.name, md.value) for md in getMetric().to_metric_data().values]
    eq(sorted(data), sorted(want.items()), 'reported')
    return any(n in {x for q in programs if q is not p for x, _ in q} for p in programs for n, _ in p)


middle_ops = st.one_of(st.tuples(st.just('get'), st.sampled_from(['a', 'a.b', 'a.b.c', 'a.c', 'd', 'd.e', '']), st.sampled_from(['base', 'counter', 'int']), st.sampled_from([None, MetricLevel.DEBUG])),
                       st.tuples(st.just('put'), st.sampled_from(['a.b', 'a.c', 'd']), st.integers(1, 5)), st.just(('read',)))


@prop.facet(st.tuples(st.lists(st.sampled_from(['a', 'a.b', 'd', 'a.b.c']), max_size=2), middle_ops, middle_ops, st.one_of(st.none(), st.integers(0, 12)), st.booleans(), st.integers(0, 9)),
            'both get a metric', quick=150, thorough=4000)
def pairs(case):
    """At whatever moment of one operation upon the tree another one comes, they come out as if they were done one after another"""
    present, op_a, op_b, second, fine, phase = case

    def make():
        getMetric('').reset()
        for n in present:
            getMetric(n)

    def perform(o):
        if o[0] == 'get':
            kw = {} if o[3] is None else {'metric_level': o[3]}
            return lambda _: type(getMetric(o[1], o[2], **kw)).__name__
        if o[0] == 'put':
            return lambda _: getMetric(o[1] + '.leaf', 'counter').runtime(o[2])
        return lambda _: getMetric().to_metric_data() and None

    def see(_):
        out = []

        def walk(m, path):
            level = getattr(m, 'level', None)
            out.append((path, type(m).__name__, level and level.name))
            names = [c.name for c in getattr(m, 'children', [])]
            eq(len(set(names)), len(names), 'names of children')
            for c in getattr(m, 'children', []):
                full = path + '.' + c.name if path else c.name
                check(getMetric(full, c.CLASS_NAME) is c, 'another metric is called %r', full)
                walk(c, full)
        walk(getMetric(), '')
        return sorted(out), sorted((md.name, md.value) for md in getMetric().to_metric_data().values if md.value is not None)

    S.atomic_pair(make, perform(op_a), perform(op_b), see, second, fine, phase, 30)
    return op_a[0] == op_b[0] == 'get'
