"""P35: collections of metric data, their JSON and their rendering for Prometheus"""
import http.client
import json
import math
import re
import socket
import time
import warnings

from hypothesis import strategies as st

from harness import Property, check, eq, raises, HarnessError
from gen import op

from satella.instrumentation.metrics import getMetric, MetricData, MetricDataCollection
from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus, PrometheusHTTPExporterThread
from satella.json import json_encode

prop = Property('P35', ['labels are not called _name, _, _timestamp nor _internal', 'Prometheus: values are numbers, labels have valid names'])
warnings.simplefilter('ignore')

label_sets = st.dictionaries(st.sampled_from(['k', 'l', 'service']), st.one_of(st.sampled_from(['a', 'b', '']), st.integers(0, 2)), max_size=2)
datum = st.tuples(st.sampled_from(['x', 'y', 'x.y', 'x.sum', 'z']), label_sets, st.one_of(st.integers(-9, 99), st.sampled_from([0.5, -1.25, 0.0])), st.sampled_from([None, None, 0, 10, 12.5]), st.booleans())
data = st.lists(datum, max_size=4, unique_by=lambda d: (d[0], frozenset(d[1].items())))


def key(name, labels):
    return name, frozenset(labels.items())


def make(d):
    return MetricData(d[0], d[2], d[1], d[3], d[4])


def model(ds):
    return {key(d[0], d[1]): (d[2], d[3], d[4]) for d in ds}


def show(mdc):
    out = {}
    for md in mdc.values:
        k = key(md.name, md.labels)
        check(k not in out, '%r is there twice', k)
        out[k] = md.value, md.timestamp, md.internal
    return out


slot = st.integers(0, 2)
words = st.sampled_from(['x', 'p', 'p.q'])
operations = st.lists(st.one_of(op('new', slot, data, st.sampled_from(['args', 'list', 'generator', 'single'])), op('copy', slot, slot), op('add', slot, slot, slot), op('iadd', slot, slot), op('add_one', slot, slot, datum), op('iadd_one', slot, datum),
                                op('prefix', slot, words), op('postfix', slot, words), op('labels', slot, label_sets), op('timestamp', slot, st.sampled_from([None, 3, 4.5])), op('value', slot, st.integers(100, 105)),
                                op('internals', slot), op('json', slot, slot, st.booleans()), op('prefix', slot, words), op('add', slot, slot, slot), op('iadd', slot, slot)), min_size=3, max_size=25)


@prop.facet(st.tuples(st.tuples(data, data, data), operations), 'entries were altered after being combined', quick=1500)
def algebra(case):
    """Histories of operations over collections, which must not affect one another"""
    start, program = case
    real = [MetricDataCollection(make(d) for d in ds) for ds in start]
    want = [model(ds) for ds in start]
    combined = altered = False

    def alter(i, f, result, **kwargs):
        """result: (name, labels, value) -> same"""
        new, options = {}, {}
        for (n, l), v in want[i].items():
            n, l, v = f(n, dict(l), v)
            options.setdefault(key(n, l), []).append(v)
        got = show(real[i])
        for k, vs in options.items():
            check(k in got, '%r is missing', k)
            check(got[k] in vs, '%r is %r, expected %r', k, got[k], vs)
            new[k] = got[k]
        want[i] = new
        check(result is real[i], 'did not return self')

    for o in program:
        i = o[1]
        if o[0] == 'new':
            mds = [make(d) for d in o[2]]
            if o[3] == 'single' and mds:
                mds = mds[:1]
                real[i] = MetricDataCollection(mds[0])
            elif o[3] == 'generator':
                real[i] = MetricDataCollection(iter(mds))
            elif o[3] == 'args':
                real[i] = MetricDataCollection(*mds)
            else:
                real[i] = MetricDataCollection(mds)
            want[i] = model(o[2][:len(mds)])
        elif o[0] == 'copy':
            real[i], want[i] = MetricDataCollection(real[o[2]]), dict(want[o[2]])
            combined = True
        elif o[0] == 'add':
            real[i], want[i] = real[o[2]] + real[o[3]], {**want[o[2]], **want[o[3]]}
            combined = True
        elif o[0] == 'iadd':
            before = real[i]
            real[i] += real[o[2]]
            check(real[i] is before, '+= made a new collection')
            want[i] = {**want[i], **want[o[2]]}
            combined = True
        elif o[0] == 'add_one':
            real[i], want[i] = real[o[2]] + make(o[3]), {**want[o[2]], **model([o[3]])}
        elif o[0] == 'iadd_one':
            real[i] += make(o[2])
            want[i] = {**want[i], **model([o[2]])}
        elif o[0] == 'prefix':
            alter(i, lambda n, l, v: (o[2] + '.' + n, l, v), real[i].prefix_with(o[2]))
        elif o[0] == 'postfix':
            alter(i, lambda n, l, v: (n + '.' + o[2], l, v), real[i].postfix_with(o[2]))
        elif o[0] == 'labels':
            real[i].add_labels(o[2])
            alter(i, lambda n, l, v: (n, {**l, **o[2]}, v), real[i])
        elif o[0] == 'timestamp':
            alter(i, lambda n, l, v: (n, l, (v[0], o[2], v[2])), real[i].set_timestamp(o[2]))
        elif o[0] == 'value':
            alter(i, lambda n, l, v: (n, l, (o[2],) + v[1:]), real[i].set_value(o[2]))
        elif o[0] == 'internals':
            real[i].remove_internals()
            want[i] = {k: v for k, v in want[i].items() if not v[2]}
        elif o[0] == 'json':
            x = real[o[2]].to_json()
            if o[3]:
                x = json.loads(json_encode(real[o[2]]))
            text = repr(x)
            real[i], want[i] = MetricDataCollection.from_json(x), dict(want[o[2]])
            eq(repr(x), text, 'JSON, after it was parsed')
        altered = altered or combined and o[0] in ('prefix', 'postfix', 'labels', 'timestamp', 'value', 'iadd')
        for j in range(3):
            eq(show(real[j]), want[j], 'collection %s after %s' % (j, o[0]))
        for a in range(3):
            for b in range(3):
                same = set(want[a]) == set(want[b])
                eq(real[a] == real[b], same, 'equality of %r and %r' % (want[a], want[b]))
                eq(real[a].strict_eq(real[b]), same and all(want[b][k][0] == v[0] for k, v in want[a].items()), 'strict equality of %r and %r' % (want[a], want[b]))
    return altered


@prop.facet(st.tuples(datum, datum, words), 'both are equal', quick=300)
def single(case):
    """A single MetricData"""
    a, b, w = case
    x, y = make(a), make(b)
    same = key(a[0], a[1]) == key(b[0], b[1])
    eq(x == y, same, 'equality')
    eq(x != y, not same, 'inequality')
    if same:
        eq(hash(x), hash(y), 'hashes')
    for stranger in (None, 5, 'x', {}, MetricDataCollection(x)):
        check(not (x == stranger) and x != stranger, 'equal to %r', stranger)
    j = json.loads(json.dumps(x.to_json(w)))
    z = MetricData.from_json(j)
    eq((z.name, dict(z.labels), z.value, z.timestamp, z.internal), (w + '.' + a[0],) + (a[1], a[2], a[3], a[4]), 'after a round trip, with a prefix')
    eq(MetricData.from_json(x.to_json()).to_json(), x.to_json(), 'JSON')
    return same


# ---------------------------------------------------------------- Prometheus
def parse(text):
    """A strict parser of Prometheus' text format"""
    out = []
    check(text == '' or text.endswith('\n'), 'the last line does not end')
    i = 0

    def match(regex):
        nonlocal i
        m = re.compile(regex).match(text, i)
        check(m is not None, 'expected %s at %r', regex, text[i:i + 30])
        i = m.end()
        return m.group()

    while i < len(text):
        if text[i] == '\n':
            i += 1
            continue
        name = match('[a-zA-Z_:][a-zA-Z0-9_:]*')
        labels = {}
        if text[i] == '{':
            i += 1
            while text[i] != '}':
                k = match('[a-zA-Z_][a-zA-Z0-9_]*')
                match('="')
                v = ''
                while text[i] != '"':
                    check(text[i] != '\n', 'a newline within a label')
                    if text[i] == '\\':
                        i += 1
                        check(text[i] in '\\"n', 'unknown escape of %r', text[i])
                        v += '\n' if text[i] == 'n' else text[i]
                    else:
                        v += text[i]
                    i += 1
                i += 1
                check(k not in labels, 'label %r repeats', k)
                labels[k] = v
                if text[i] == ',':
                    i += 1
            i += 1
        match(' ')
        value = match('[^ \n]+')
        timestamp = None
        if text[i] == ' ':
            i += 1
            timestamp = int(match('-?[0-9]+'))
        match('\n')
        out.append((name, frozenset(labels.items()), float(value), timestamp))
    return out


values = st.one_of(st.integers(-10 ** 9, 10 ** 9), st.floats(allow_nan=False), st.sampled_from([math.inf, -math.inf, 1e300, 0.1]))
texts = st.one_of(st.text(max_size=6), st.text('\\"\n,}{= a', max_size=6), st.integers(0, 99), st.just(math.inf))
rendered = st.lists(st.tuples(st.sampled_from(['root', 'root.metric', 'a.b.c', 'ns:a_b', 'x9']), st.dictionaries(st.sampled_from(['k', 'le', 'a_b', 'L9']), texts, max_size=3), values, st.one_of(st.none(), st.integers(0, 10 ** 9).map(lambda x: x / 4)), st.booleans()),
                    max_size=5, unique_by=lambda d: (d[0], frozenset(d[1].items())))


def expect(ds, extra=()):
    return [(d[0].replace('.', '_'), frozenset((k, str(v)) for k, v in {**d[1], **dict(extra)}.items()), float(d[2]), None if d[3] is None else int(d[3] * 1000)) for d in ds if not d[4]]


@prop.facet(rendered, 'a label with something to escape', quick=800)
def prometheus(case):
    """What gets rendered is parsed back"""
    got = parse(metric_data_collection_to_prometheus(MetricDataCollection(make(d) for d in case)))
    eq(sorted(got, key=repr), sorted(expect(case), key=repr), 'rendered')
    return any(c in str(v) for d in case for v in d[1].values() for c in '\\"\n')


def get(port, path):
    deadline = time.monotonic() + 20
    while True:
        c = http.client.HTTPConnection('localhost', port, timeout=20)
        try:
            c.request('GET', path)
            r = c.getresponse()
            return r.status, r.getheader('Content-Type'), r.read().decode('utf-8')
        except ConnectionRefusedError:
            if time.monotonic() > deadline:
                raise HarnessError('cannot connect to the exporter')
            time.sleep(0.02)
        finally:
            c.close()


@prop.facet(st.tuples(rendered, st.dictionaries(st.sampled_from(['host', 'k']), st.sampled_from(['a', 'b"', 'ż']), max_size=2), st.booleans(), st.integers(1, 3), st.sampled_from(['/', '/metric', '/metrics/', '/x'])), 'with extra labels', quick=10, thorough=100, shrink=False)
def exporter(case):
    """The HTTP server for Prometheus"""
    ds, extra, enable_metric, times, wrong = case
    ds = [d[:4] + (d[4] and not extra,) for d in ds]
    getMetric('').reset()
    m = getMetric('a.m', 'counter')
    m.runtime(3)
    with socket.socket() as s:
        s.bind(('localhost', 0))
        port = s.getsockname()[1]

    class Custom(PrometheusHTTPExporterThread):
        def get_metric_data(self):
            return super().get_metric_data() + MetricDataCollection(make(d) for d in ds)

    t = Custom('localhost', port, extra or None, enable_metric).start()
    try:
        for i in range(times):
            status, kind, text = get(port, '/metrics')
            eq(status, 200, 'status')
            check(kind.startswith('text/plain'), 'content type of %r', kind)
            got = parse(text)
            if enable_metric:
                eq(sorted(x[1] for x in got if x[0] == 'prometheus_exports_per_time') and sorted((dict(x[1])['period'], x[2]) for x in got if x[0] == 'prometheus_exports_per_time' and dict(x[1])['period'] != '1'),
                   [('20', float(i)), ('60', float(i))], 'exports so far')
            got = [x for x in got if x[0] != 'prometheus_exports_per_time']
            merged = {}     # entries may become the same
            for e in expect([('a.m', {}, 3, None, False)]) and expect(ds + [('a.m', {}, 3, None, False)], extra.items()):
                merged.setdefault(e[:2], set()).add(e[2:])
            eq({x[:2] for x in got}, set(merged), 'series')
            check(len(got) == len(merged), 'some are there more than once')
            for x in got:
                check(x[2:] in merged[x[:2]], '%r is %r', x[:2], x[2:])
            status, _, _ = get(port, wrong)
            eq(status, 404, 'status of %s' % (wrong,))
            time.sleep(0.01)
    finally:
        t.terminate()
        t.join(20)
    check(not t.is_alive(), 'still alive after having been terminated')
    return bool(extra)
