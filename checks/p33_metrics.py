"""P33: metrics report exactly what they were given, for each set of labels"""
import sched as S       # before satella

import math
import time
import warnings
from concurrent.futures import Future

from hypothesis import strategies as st

from harness import Property, check, eq, raises, FakeClock, Violation
from gen import op

from satella.instrumentation.metrics import getMetric, MetricLevel, Metric, LabeledMetric, AggregateMetric
from satella.instrumentation.metrics.metric_types import METRIC_NAMES_TO_CLASSES
from satella.instrumentation.metrics.metric_types.measurable_mixin import MeasurableMixin

prop = Property('P33', ['a metric is used either always with labels, or always without', 'values of labels that are equal are the same label'])
warnings.simplefilter('ignore')

quarter = st.integers(0, 24).map(lambda x: x / 4)
number = st.one_of(st.integers(-8, 40).map(lambda x: x / 4), st.integers(0, 10))
label_sets = st.sampled_from([{'x': 1}, {'x': 2}, {'x': 'a'}, {'y': 1}, {'x': 1, 'y': 'b'}, {'y': 'b', 'x': 1}, {'x': ''}])


def frozen(labels):
    return tuple(sorted(labels.items()))


def flatten(mdc):
    """{(name, labels): (value, timestamp, internal)}"""
    out = {}
    for md in mdc.values:
        key = md.name, frozen(md.labels)
        check(key not in out, 'entry %r is reported twice', key)
        out[key] = md.value, md.timestamp, md.internal
    return out


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) < 1e-9
    return type(a) is type(b) and a == b


def percentile(values, p):
    values = sorted(values)
    at = (len(values) - 1) * p
    i = math.floor(at)
    if i + 1 >= len(values):
        return values[-1]
    return values[i] + (values[i + 1] - values[i]) * (at - i)


class Base:
    """What was given to a metric with a certain set of labels"""

    def __init__(self, name, labels, cfg, now):
        self.name, self.labels, self.cfg, self.updated = name, labels, cfg, now
        self.log = []       # of (moment, value)

    def put(self, now, *args):
        self.log.append((now,) + args)
        self.updated = now

    def item(self, value, suffix='', **labels):
        return (self.name + suffix, frozen({**self.labels, **labels})), value

    def values(self):
        return [x[1] for x in self.log]


class Int(Base):
    convert = int

    def report(self, now, labelled):
        return [self.item(self.convert(self.values()[-1]) if self.log else self.convert(0))]

    def totals(self, now, children):
        return []


class Float(Int):
    convert = float


class Counter(Base):
    def report(self, now, labelled):
        yield self.item(sum(self.values()))
        if self.cfg.get('count_calls', False):
            yield self.item(len(self.log), '.count')

    def totals(self, now, children):
        if self.cfg.get('sum_children', True):
            yield self.item(sum(self.values()), '.sum')
        if self.cfg.get('count_calls', False):
            yield self.item(len(self.log), '.count')


class Summary(Base):
    def quantiles(self, values, suffix=''):
        for q in self.cfg.get('quantiles', (0.5, 0.95)):
            yield self.item(percentile(values, q) if values else 0.0, suffix, quantile=q)

    def counts(self):
        if self.cfg.get('count_calls', True):
            yield self.item(len(self.log), '.count')
            yield self.item(sum(self.values()), '.sum')

    def window(self):
        return self.values()[-self.cfg.get('last_calls', 100):]

    def report(self, now, labelled):
        yield from self.quantiles(self.window())
        yield from self.counts()

    def totals(self, now, children):
        if self.cfg.get('aggregate_children', True):
            yield from self.quantiles([x for c in children for x in c.window()], '.total')
        yield from self.counts()


class Histogram(Base):
    def buckets(self, suffix):
        limits = self.cfg.get('buckets', (.005, .01, .025, .05, .075, .1, .25, .5, .75, 1.0, 2.5, 5.0, 7.5, 10.0))
        lower = 0.0
        for upper in list(limits) + [math.inf]:
            yield self.item(sum(lower <= v < upper for v in self.values()), suffix, ge=upper, le=lower)
            lower = upper
        yield self.item(len(self.log), suffix + '.count')
        yield self.item(sum(self.values()), suffix + '.sum')

    def report(self, now, labelled):
        return self.buckets('')

    def totals(self, now, children):
        if self.cfg.get('aggregate_children', True):
            yield from self.buckets('.total')


class CPS(Base):
    def count(self, now, suffix=''):
        for period in self.cfg.get('time_unit_vectors', [1]):
            yield self.item(sum(now - x[0] <= period for x in self.log), suffix, period=period)

    def report(self, now, labelled):
        return self.count(now)

    def totals(self, now, children):
        if self.cfg.get('aggregate_children', True):
            yield from self.count(now, '.total')


class Linkfail(Base):
    def addresses(self):
        out = {}
        for _, success, address in self.log:
            s = out.setdefault(address, {'working': True, 'ok': 0, 'bad': 0, 'calls': []})
            if success:
                s['ok'], s['bad'] = s['ok'] + 1, 0
                if not s['working'] and s['ok'] >= self.cfg.get('consecutive_successes_to_online', 10):
                    s['working'] = True
                    s['calls'].append(True)
            else:
                s['ok'], s['bad'] = 0, s['bad'] + 1
                if s['working'] and s['bad'] >= self.cfg.get('consecutive_failures_to_offline', 100):
                    s['working'] = False
                    s['calls'].append(False)
        return out

    def report(self, now, labelled):
        all_ = self.addresses()
        for address, s in all_.items():
            labels = {} if set(all_) == {0} else {'address': address}
            yield self.item(s['ok'], '.consecutive_successes', **labels)
            yield self.item(s['bad'], '.consecutive_failures', **labels)
            yield self.item(int(s['working']), '.status', **labels)

    def totals(self, now, children):
        return []


MODELS = {'int': Int, 'float': Float, 'counter': Counter, 'summary': Summary, 'quantile': Summary, 'histogram': Histogram, 'cps': CPS, 'linkfail': Linkfail}
CFG = {'int': st.just({}), 'float': st.just({}),
       'counter': st.fixed_dictionaries({}, optional={'sum_children': st.booleans(), 'count_calls': st.booleans()}),
       'summary': st.fixed_dictionaries({}, optional={'last_calls': st.integers(1, 5), 'quantiles': st.lists(st.sampled_from([0.0, 0.25, 0.5, 0.9, 0.95, 1.0]), min_size=1, max_size=3, unique=True),
                                                      'aggregate_children': st.booleans(), 'count_calls': st.booleans()}),
       'histogram': st.fixed_dictionaries({}, optional={'buckets': st.lists(st.integers(1, 12).map(lambda x: x / 2), min_size=1, max_size=4, unique=True).map(sorted), 'aggregate_children': st.booleans()}),
       'cps': st.fixed_dictionaries({}, optional={'time_unit_vectors': st.lists(st.sampled_from([0.1, 1.1, 2.6, 7.1, 20.1]), min_size=1, max_size=3, unique=True), 'aggregate_children': st.booleans()}),
       'linkfail': st.fixed_dictionaries({}, optional={'consecutive_failures_to_offline': st.integers(1, 3), 'consecutive_successes_to_online': st.integers(1, 3)})}
CFG['quantile'] = CFG['summary']
ARGS = {'cps': st.just(()), 'linkfail': st.one_of(st.tuples(st.booleans(), st.sampled_from([0, 0, 1, 'host'])), st.tuples(st.booleans(), st.just(0)))}
COMMON = st.fixed_dictionaries({}, optional={'enable_timestamp': st.booleans(), 'internal': st.booleans(), 'labels': st.sampled_from([{}, {'k': 'v'}, {'k': 'v', 'l': 3}])})


class Watched:
    """A metric along with what it's expected to report"""

    def __init__(self, clock, name, kind, cfg, common):
        self.clock, self.kind, self.cfg, self.common = clock, kind, cfg, common
        self.called = []
        extra = {}
        if kind == 'linkfail':
            extra = dict(callback_on_online=lambda a, l: self.called.append((True, a, frozen(l))), callback_on_offline=lambda a, l: self.called.append((False, a, frozen(l))))
        self.metric = getMetric(name, kind, **cfg, **common, **extra)
        self.created = clock.now
        self.base = self.make({})
        self.children = {}

    def make(self, labels):
        return MODELS[self.kind](self.metric.name, {**self.common.get('labels', {}), **labels}, self.cfg, self.clock.now)

    def put(self, args, labels):
        args = self.fill(args)
        self.base.put(self.clock.now, *args)
        if labels:
            key = frozen(labels)
            if key not in self.children:
                self.children[key] = self.make(labels)
            self.children[key].put(self.clock.now, *args)

    def fill(self, args):
        if self.kind == 'cps':
            return ()
        if self.kind == 'linkfail' and len(args) < 2:
            return args + (0,)
        return args

    def meta(self, node, value):
        return value, node.updated if self.common.get('enable_timestamp') else None, self.common.get('internal', False)

    def expected(self):
        now = self.clock.now
        if not self.children:
            return {k: self.meta(self.base, v) for k, v in self.base.report(now, False)}
        out = {}
        for c in self.children.values():
            out.update((k, self.meta(c, v)) for k, v in c.report(now, True))
        out.update((k, self.meta(self.base, v)) for k, v in self.base.totals(now, list(self.children.values())))
        return out


def compare(got, want, what):
    got = flatten(got)
    for key in sorted(set(got) | set(want), key=repr):
        check(key in got, '%s: %r is missing, expected %r', what, key, want.get(key))
        check(key in want, '%s: %r is reported (%r) in excess', what, key, got[key])
        check(close(got[key][0], want[key][0]), '%s: %r is %r instead of %r', what, key, got[key][0], want[key][0])
        eq(got[key][1], want[key][1], '%s: timestamp of %r' % (what, key))
        eq(got[key][2], want[key][2], '%s: whether is %r internal' % (what, key))


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(sorted(MODELS)))
    args = ARGS.get(kind, st.tuples(number))
    labelled = draw(st.booleans())
    labels = draw(st.lists(label_sets, min_size=1, max_size=3)) if labelled else [{}]
    one = st.one_of(st.tuples(st.just('put'), args, st.sampled_from(labels)), st.tuples(st.just('put'), args, st.sampled_from(labels)), st.tuples(st.just('put'), args, st.sampled_from(labels)),
                    st.tuples(st.just('debug'), args, st.sampled_from(labels)), st.tuples(st.just('advance'), quarter), st.just(('read',)))
    steps = draw(st.one_of(st.lists(one, max_size=30), st.lists(one, min_size=12, max_size=30)))
    return kind, draw(CFG[kind]), draw(COMMON), draw(st.sampled_from(['m', 'a.m', 'a.b.m'])), steps


@prop.facet(histories(), 'at least three values, and with labels, or with time passing', quick=2500)
def values(case):
    """Each kind of metric, against its model"""
    kind, cfg, common, name, steps = case
    clock = FakeClock()
    with clock.installed():
        getMetric('').reset()
        root = getMetric()
        w = Watched(clock, name, kind, cfg, common)
        puts = 0

        def read():
            compare(w.metric.to_metric_data(), w.expected(), 'metric')
            prefix = name[:-1]
            compare(root.to_metric_data(), {(prefix + n, l): v for (n, l), v in w.expected().items()}, 'root metric')
            for key, child in w.children.items():
                compare(w.metric.get_specific_metric_data(dict(reversed(key))), {k: w.meta(child, v) for k, v in child.report(clock.now, True)}, 'metric data for %r' % (key,))

        read()
        for s in steps:
            if s[0] == 'put':
                w.metric.runtime(*s[1], **s[2])
                w.put(s[1], s[2])
                puts += 1
            elif s[0] == 'debug':
                w.metric.debug(*s[1], **s[2])       # the level is RUNTIME, so these don't count
            elif s[0] == 'advance':
                clock.advance(s[1] * 1.01)      # so that nothing is exactly a period ago
            else:
                read()
        read()
        if kind == 'linkfail':
            want = []
            for node in w.children.values() if w.children else [w.base]:
                for address, a in node.addresses().items():
                    want.extend((x, address, frozen(node.labels)) for x in a['calls'])
            eq(sorted(w.called, key=repr), sorted(want, key=repr), 'callbacks called')
    return puts > 2 and (bool(w.children) or any(s[0] == 'advance' for s in steps))


@prop.facet(st.tuples(st.sampled_from(['counter', 'summary', 'int', 'histogram', 'cps', 'linkfail']), st.booleans(), st.lists(st.tuples(label_sets, st.integers(0, 5)), max_size=5), st.lists(st.tuples(label_sets, st.integers(0, 5)), max_size=5)),
            'labelled both before and after', quick=300)
def resetting(case):
    """reset() forgets of each set of labels, and these start anew"""
    kind, deep, before, after = case
    clock = FakeClock()
    with clock.installed():
        getMetric('').reset()
        root = getMetric()
        name = 'a.b.m' if deep else 'm'
        other = getMetric('other', 'int')
        other.runtime(7)
        m = getMetric(name, kind)

        def put(what):
            for labels, v in what:
                m.runtime(*(() if kind == 'cps' else (v,)), **labels)

        put(before)
        m.reset()
        eq(getMetric(name, kind) is m, True, 'the metric is still there')

        def fresh(mdc, prefix):
            return {k: v for k, v in flatten(mdc).items() if k[1] and k[0] in (prefix + 'm', prefix + 'm.count', prefix + 'm.sum', prefix + 'm.status') and any(l in ('x', 'y') for l, _ in k[1])}

        prefix = name[:-1]
        eq(fresh(m.to_metric_data(), ''), {}, 'entries with labels after a reset')
        put(after)
        got = fresh(root.to_metric_data(), prefix)
        put_to = {}
        for labels, v in after:
            node = put_to.setdefault(frozen(labels), MODELS[kind](prefix + 'm', labels, {}, 0))
            node.put(clock.now, *(() if kind == 'cps' else (v, 0)))
        want = {}
        for node in put_to.values():
            want.update((k, v) for k, v in node.report(clock.now, True) if k[0] in (prefix + 'm', prefix + 'm.count', prefix + 'm.sum', prefix + 'm.status'))
        eq(sorted(got, key=repr), sorted(want, key=repr), 'entries after a reset')
        for k in want:
            check(close(got[k][0], want[k]), '%r is %r after a reset, instead of %r', k, got[k][0], want[k])
        check(flatten(root.to_metric_data())['other', ()][0] == 7, 'other metrics were affected')
    return bool(before and after)


@prop.facet(st.tuples(st.lists(st.tuples(st.sampled_from(['int', 'counter', 'summary', 'histogram', 'float']), st.booleans()), min_size=1, max_size=3), st.booleans(), label_sets,
                      st.lists(st.tuples(st.sampled_from(['runtime', 'debug', 'handle']), st.integers(0, 9), st.sampled_from([{}, {'x': 5}, {'z': 1}])), max_size=8), st.booleans()), 'at least two values', quick=400)
def wrappers(case):
    """LabeledMetric and AggregateMetric, and these nested"""
    kinds, labeled_inside, labels, puts, outer_label = case
    clock = FakeClock()
    with clock.installed():
        getMetric('').reset()
        ws, parts = [], []
        for i, (kind, labelled) in enumerate(kinds):
            w = Watched(clock, 'm%d' % i, kind, {}, {})
            ws.append((w, labels if labelled and labeled_inside else {}))
            parts.append(LabeledMetric(w.metric, **labels) if labelled and labeled_inside else w.metric)
        m = AggregateMetric(*parts)
        if outer_label:
            m = LabeledMetric(m, q='w')
        for how, v, extra in puts:
            given = dict(extra)
            if not outer_label:
                given['w'] = 1      # always with labels
            if how == 'handle':
                m.handle(MetricLevel.RUNTIME, v, **given)
            else:
                getattr(m, how)(v, **given)
            if how == 'debug':
                continue
            for w, mine in ws:
                w.put((v,), {**given, **({'q': 'w'} if outer_label else {}), **mine})
        for w, _ in ws:
            compare(w.metric.to_metric_data(), w.expected(), 'metric of kind %s' % (w.kind,))
    return len(puts) > 1


@prop.facet(st.tuples(st.booleans(), st.lists(st.tuples(label_sets, st.integers(-5, 5)), max_size=3, unique_by=lambda x: frozen(x[0])), st.booleans(), st.sampled_from([{}, {'k': 1}]), st.lists(quarter, max_size=4)), 'with labels', quick=200)
def computed(case):
    """callable, uptime and empty"""
    own, labelled, internal, labels, steps = case
    clock = FakeClock()
    with clock.installed():
        getMetric('').reset()
        root = getMetric()
        box = [5]
        c = getMetric('a.c', 'callable', value_getter=(lambda: box[0]) if own else None, internal=internal, labels=dict(labels))
        for l, v in labelled:
            LabeledMetric(c, **l, callable=lambda v=v: box[0] + v)
        clock.advance(3)
        started = clock.now
        u = getMetric('a.u', 'uptime', time_getter=clock, internal=internal, labels=dict(labels))
        e = getMetric('a.e', 'empty')
        for s in [0] + steps:
            clock.advance(s)
            box[0] += 1
            e.runtime(5, x=3)
            e.debug(1)
            want = {('a.u', frozen(labels)): (clock.now - started, internal)}
            if own:
                want['a.c', frozen(labels)] = box[0], internal
            for l, v in labelled:
                want['a.c', frozen({**labels, **l})] = box[0] + v, internal
            eq({k: (v[0], v[2]) for k, v in flatten(root.to_metric_data()).items()}, want, 'values')
        for m in (c, u):
            raises(TypeError, m.runtime, 5)
    return bool(labelled)


# ---------------------------------------------------------------- measuring
class Recorder(Metric, MeasurableMixin):
    """A metric of somebody's own"""
    __slots__ = ('got',)
    CLASS_NAME = 'recorder'

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.got = []

    def _handle(self, *args, **labels):
        self.got.append((args, labels))


class Planned(Exception):
    pass


class Rude(BaseException):
    pass


ENDS = [None, None, Planned, Rude, KeyError]


@prop.facet(st.tuples(st.sampled_from(['function', 'function', 'with', 'generator', 'future']), st.sampled_from([None, True, False]), st.sampled_from([None, MetricLevel.RUNTIME, MetricLevel.DEBUG]),
                      st.sampled_from([MetricLevel.RUNTIME, MetricLevel.DEBUG, MetricLevel.DISABLED]), st.booleans(), st.sampled_from([{}, {'x': 1}]), st.sampled_from(['plain', 'labeled', 'aggregate']),
                      st.lists(st.tuples(st.lists(quarter, min_size=1, max_size=3), st.sampled_from(ENDS), st.integers(0, 3)), min_size=1, max_size=4)), 'at least one measured', quick=1200)
def measuring(case):
    """measure() and measure_future()"""
    form, include, logging_level, level, own_getter, labels, wrap, runs = case
    clock, other = FakeClock(), FakeClock(0.0)
    with clock.installed():
        rec = Recorder('rec', None, level)
        extra = {}
        if wrap == 'labeled':
            metric, extra = LabeledMetric(rec, z=3), {'z': 3}
        elif wrap == 'aggregate':
            metric = AggregateMetric(rec)
        else:
            metric = rec
        kwargs = dict(labels)
        # the default one had been bound before the time was ours
        kwargs['value_getter'] = other if own_getter else clock
        if logging_level is not None:
            kwargs['logging_level'] = logging_level
        if include is not None and form != 'future':
            kwargs['include_exceptions'] = include
        accepted = level >= (logging_level or MetricLevel.RUNTIME)
        want = []

        def took(amount, exc):
            if accepted and (exc is None or include is not False or form == 'future'):
                want.append(((amount,), {**labels, **extra}))

        def spend(t):
            clock.advance(t)
            other.advance(t * 2)

        factor = 2 if own_getter else 1

        def body(steps, exc, tag):
            for t in steps:
                spend(t)
            if exc is not None:
                raise exc(tag)
            return tag, 'result'

        def gen_body(steps, exc, tag):
            for i, t in enumerate(steps):
                got = yield i
                eq(got, i * 10, 'value sent to the generator')
                spend(t)
            if exc is not None:
                raise exc(tag)
            return tag, 'result'

        if form == 'function':
            fun = metric.measure(**kwargs)(body)
        elif form == 'generator':
            fun = metric.measure(**kwargs)(gen_body)
        for steps, exc, tag in runs:
            total = sum(steps) * factor
            try:
                if form == 'function':
                    eq(fun(steps, exc, tag=tag), (tag, 'result'), 'value returned')
                elif form == 'with':
                    with metric.measure(**kwargs):
                        body(steps, exc, tag)
                elif form == 'generator':
                    g = fun(steps, exc, tag=tag)
                    spend(1)        # not counted, the generator has not started
                    try:
                        x = next(g)
                        i = 0
                        while True:
                            eq(x, i, 'value yielded')
                            spend(0.5)
                            total += 0.5 * factor
                            x = g.send(i * 10)
                            i += 1
                    except StopIteration as e:
                        eq(e.value, (tag, 'result'), 'value returned by the generator')
                else:
                    f = Future()
                    metric.measure_future(f, **{k: v for k, v in kwargs.items()})
                    spend(0.5)
                    total += 0.5 * factor
                    second = Recorder('second', None, MetricLevel.RUNTIME)
                    second.measure_future(f, value_getter=clock)
                    try:
                        f.set_result(body(steps, exc, tag))
                    except (Exception, Rude) as e:
                        f.set_exception(e)
                    eq(second.got, [((sum(steps),), {})], 'second metric, started later')
                    spend(4)
                    if exc is not None:
                        f.result()
            except Violation:
                raise
            except (Exception, Rude) as e:
                check(type(e) is exc and e.args == (tag,), 'raised %r', e)
            else:
                check(exc is None, 'an exception of %r was lost', exc)
            took(total, exc)
            eq(rec.got, want, 'values handled')
    return bool(want)


# ---------------------------------------------------------------- threads
thread_ops = st.lists(st.one_of(st.tuples(st.just('put'), st.integers(0, 9), st.sampled_from([{'x': 1}, {'x': 2}])), st.tuples(st.just('put'), st.integers(0, 9), st.just({'x': 1})), st.just(('read',))), min_size=1, max_size=5)


@prop.facet(st.tuples(st.sampled_from(['counter', 'summary', 'histogram', 'cps', 'int', 'linkfail', 'float']), st.booleans(), st.sampled_from([{}, {'count_calls': True}]), st.lists(thread_ops, min_size=2, max_size=3), S.schedules(), st.booleans()),
            'at least two threads put values', quick=400, thorough=12000)
def threads(case):
    """What threads have handled at the same time is all there"""
    kind, labelled, cfg, programs, schedule, trace = case
    cfg = cfg if kind == 'counter' else {'last_calls': 3} if kind == 'summary' else {}
    sch = S.Scheduler(schedule, trace, free_time=False)
    getMetric('').reset()
    m = getMetric('a.m', kind, **cfg)
    root = getMetric()

    def runner(program):
        def run():
            for o in program:
                if o[0] == 'put':
                    m.runtime(*(() if kind == 'cps' else (o[1],)), **(o[2] if labelled else {}))
                else:
                    flatten(root.to_metric_data())
                    m.to_metric_data()
        return run

    sch.run(*[runner(p) for p in programs])
    nodes = {}
    for p in programs:
        for o in p:
            if o[0] == 'put':
                for labels in ([{}, o[2]] if labelled else [{}]):
                    nodes.setdefault(frozen(labels), MODELS[kind]('m', labels, cfg, 0)).put(0, *(() if kind == 'cps' else (o[1], 0)))
    out = []
    S.Scheduler([], False, free_time=False).run(lambda: out.append(flatten(m.to_metric_data())))     # by the same clock
    got = out[0]
    kids = {l: n for l, n in nodes.items() if l}
    if labelled and kids:
        want = {k for n in kids.values() for k, _ in n.report(0, True)} | {k for k, _ in nodes[()].totals(0, list(kids.values()))}
    else:
        want = {k for k, _ in nodes.get((), MODELS[kind]('m', {}, cfg, 0)).report(0, False)}
    eq(sorted(got, key=repr), sorted(want, key=repr), 'entries')
    for l, n in nodes.items():
        exact = list(n.report(0, True)) if l or not labelled else list(n.totals(0, list(kids.values())))
        for k, v in exact:
            if kind in ('int', 'float'):
                check(got[k][0] in {float(x) for x in n.values()}, '%r is %r, which nobody has put', k, got[k][0])
            elif kind == 'linkfail':
                a, b = len([x for x in n.values() if x]), len([x for x in n.values() if not x])
                check(0 <= got[k][0] <= (1 if k[0].endswith('status') else a if k[0].endswith('successes') else b), '%r is %r', k, got[k][0])
                if not (a and b):
                    eq(got[k][0], v, '%r' % (k,))
            elif kind == 'summary' and not k[0].endswith(('count', 'sum')):
                continue        # depends upon the order
            else:
                check(close(got[k][0], v), '%r is %r instead of %r', k, got[k][0], v)
    return sum(any(o[0] == 'put' for o in p) for p in programs) > 1


@prop.facet(st.tuples(st.sampled_from(['counter', 'summary', 'histogram', 'cps', 'int', 'linkfail', 'float']), st.lists(st.tuples(st.integers(0, 9), st.sampled_from([{}, {'x': 1}])), max_size=2),
                      st.booleans(), st.tuples(st.sampled_from(['put', 'put', 'read', 'reset']), st.integers(0, 9), st.sampled_from([{'x': 1}, {'x': 1}, {'x': 2}])),
                      st.tuples(st.sampled_from(['put', 'put', 'read', 'reset']), st.integers(0, 9), st.sampled_from([{'x': 1}, {'x': 1}, {'x': 2}])),
                      st.one_of(st.none(), st.integers(0, 12)), st.booleans(), st.integers(0, 9)), 'both put values', quick=150, thorough=4000)
def pairs(case):
    """At whatever moment of one operation upon a metric another one comes, they come out as if they were done one after another"""
    kind, before, labelled, op_a, op_b, second, fine, phase = case
    cfg = {'last_calls': 3} if kind == 'summary' else {}

    def put(m, v, labels):
        m.runtime(*(() if kind == 'cps' else (v,)), **(labels if labelled else {}))

    def make():
        getMetric('').reset()
        m = getMetric('a.m', kind, **cfg)
        for v, labels in before:
            put(m, v, labels)
        return m

    def perform(o):
        if o[0] == 'put':
            return lambda m: put(m, *o[1:])
        if o[0] == 'reset':
            return lambda m: m.reset()
        return lambda m: (flatten(m.to_metric_data()), None)[1]

    def see(m):
        first = report(m)
        for labels in ({'x': 1}, {'x': 2}):     # there might be two of the same now
            put(m, 1, labels)
        return first, report(m)

    def report(m):
        return sorted(((k, v[0]) for k, v in flatten(m.to_metric_data()).items()), key=repr)

    S.atomic_pair(make, perform(op_a), perform(op_b), see, second, fine, phase, 30)
    return op_a[0] == op_b[0] == 'put'
