import sched as S           # before satella
import bisect
import warnings
from hypothesis import strategies as st
from harness import *
from gen import *
from satella.coding.structures import SyncableDroppable, DBStorage

prop = Property('P11', ['keys arrive in increasing order; cleaning up is requested explicitly', 'threads are switched by the harness, at any statement of satella and any operation upon the storage',
                        'a restart is preceded by storing everything to the database'])


class DB(DBStorage):
    def __init__(self):
        self.data, self.open, self.seen = {}, 0, {}
        self.fails_after, self.again = None, False

    def put(self, key, value):
        if self.fails_after is not None:
            if not self.fails_after:
                raise OSError()
            self.fails_after -= 1
        check(key not in self.data or self.again and self.data[key] == value, 'key %s was put to the DB twice', key)
        self.data[key] = value

    def delete(self, key):
        del self.data[key]

    def iterate(self, starting_key):
        return It(self, [(k, v) for k, v in sorted(self.data.items()) if starting_key is None or k >= starting_key])

    def on_change_start_entry(self, v):
        self.seen['start'] = v

    def on_change_stop_entry(self, v):
        self.seen['stop'] = v

    def on_change_synced_up_to(self, v):
        self.seen['synced'] = v


class It:
    def __init__(self, db, data):
        self.db, self.it = db, iter(data)
        db.open += 1

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.db.open -= 1


entry = st.one_of(small, st.sampled_from([None, '', False]))
sd_ops = ops(op('new', st.integers(1, 12), entry), op('new', st.integers(1, 12), entry), op('new', st.integers(1, 60), entry), op('stalekey', st.integers(0, 5)),
             op('keep_mem'), op('keep_mem'), op('keep_db'), op('to_db'), op('archive', st.integers(-5, 90), st.integers(0, 90)),
             op('archive', st.integers(-5, 90), st.integers(0, 90)), op('latest'), op('sync', st.one_of(st.none(), st.integers(1, 6)), st.booleans()),
             op('sync', st.one_of(st.none(), st.integers(1, 6)), st.booleans()), op('restart'), op('failing', st.sampled_from(['keep_mem', 'to_db']), st.integers(0, 3)), max_size=40)


@prop.facet(st.tuples(st.integers(-3, 3), st.one_of(st.integers(5, 20), st.integers(1, 20), st.just(0.5)), st.integers(1, 30), st.lists(st.integers(1, 5), max_size=4), sd_ops),
            'the series was split between the memory and the database', quick=3000)
def syncable_droppable(case):
    first, mem_span, extra, in_db, program = case
    db = DB()
    db_span = mem_span + extra
    series = {}
    k = first - 1
    for d in in_db:
        k += d
        series[k] = d
        db.data[k] = d
    synced = None
    nt = False
    db.seen = {'start': min(series, default=None), 'stop': max(series, default=None), 'synced': None}
    sd = SyncableDroppable(db, db.seen['start'], db.seen['stop'], None, mem_span, db_span)
    for o in program:
        kind = o[0]
        if kind == 'new':
            k = (max(series) if series else first - 1) + o[1]
            sd.on_new_data(k, o[2])
            series[k] = o[2]
        elif kind == 'stalekey':
            if series:
                raises(ValueError, sd.on_new_data, max(series) - o[1], 0)
        elif kind == 'keep_mem':
            sd.cleanup_keep_in_memory()
            if series:
                cutoff = max(series) - mem_span
                eq([q for q, _ in sd.data_in_memory if q <= cutoff], [], 'what should have been ejected from memory')
        elif kind == 'failing':         # the storage does: nothing is lost, and storing it later succeeds
            db.fails_after, db.again = o[2], True
            storing = sd.cleanup_keep_in_memory if o[1] == 'keep_mem' else sd.sync_to_db
            try:
                storing()
            except OSError:
                pass
            db.fails_after = None
            eq(list(sd.get_archive(-99, 9999)), sorted(series.items()), 'archive after storing has failed')
            storing()
            db.again = False
        elif kind == 'keep_db':
            sd.cleanup_keep_in_db()
            if series:
                cutoff = max(series) - db_span
                series = {q: v for q, v in series.items() if q >= cutoff}
        elif kind == 'to_db':
            sd.sync_to_db()
            eq(list(sd.data_in_memory), [], 'memory after storing everything')
        elif kind == 'restart':         # of the program, so another one gets what the storage was told of
            sd.sync_to_db()
            sd = SyncableDroppable(db, db.seen['start'], db.seen['stop'], db.seen['synced'], mem_span, db_span)
        elif kind == 'archive':
            lo, hi = o[1], o[1] + o[2]
            eq(list(sd.get_archive(lo, hi)), [(q, v) for q, v in sorted(series.items()) if lo <= q <= hi], 'archive %s-%s' % (lo, hi))
        elif kind == 'latest':
            if series:
                eq(sd.get_latest_value(), (max(series), series[max(series)]), 'latest value')
            else:
                raises(ValueError, sd.get_latest_value)
        elif kind == 'sync':
            want = [(q, v) for q, v in sorted(series.items()) if synced is None or q > synced]
            if not want:
                raises(ValueError, sd.on_sync_request)
            else:
                got = list(sd.on_sync_request() if o[1] is None else sd.on_sync_request(o[1]))
                eq(got, want[:o[1]], 'data to synchronize')
                if o[2]:
                    synced = got[-1][0]
                    sd.on_synced_up_to(synced)
        mem = list(sd.data_in_memory)
        nt = nt or bool(mem and db.data)
        check(not set(q for q, _ in mem) & set(db.data), 'an item is both in memory and in the DB')
        eq(sorted(db.data.items()) + mem, sorted(series.items()), 'series')
        eq((sd.start_entry, sd.stop_entry, sd.synced_up_to), (min(series, default=None), max(series, default=None), synced), 'start, stop, synced')
        eq((db.seen['start'], db.seen['stop'], db.seen['synced']), (sd.start_entry, sd.stop_entry, sd.synced_up_to), 'start, stop, synced the storage was told of')
        for name, v in (('start', sd.start_entry), ('stop', sd.stop_entry), ('synced', sd.synced_up_to)):
            if name in db.seen:
                eq(db.seen[name], v, 'what the storage knows about ' + name)
        eq(sd.first_key_in_memory, mem[0][0] if mem else None, 'first key in memory')
        eq(db.open, 0, 'iterators of the storage left open')
    return nt


def point():
    if S.current is not None:
        S.current.point()


class SharedDB(DB):
    """Threads might be switched upon each operation, and iterators see what was put while they were iterating"""
    def put(self, key, value):
        point()
        super().put(key, value)
        point()

    def delete(self, key):
        point()
        super().delete(key)

    def iterate(self, starting_key):
        point()
        return SharedIt(self, starting_key)


class SharedIt(It):
    def __init__(self, db, starting_key):
        super().__init__(db, ())
        self.least, self.last = starting_key, None

    def __next__(self):
        point()
        for k, v in sorted(self.db.data.items()):
            if (self.last is None or k > self.last) and (self.least is None or k >= self.least):
                self.last = k
                return k, v
        raise StopIteration()

    def close(self):
        check(self.least is not Ellipsis, 'an iterator was closed twice')
        self.least = Ellipsis
        super().close()


@prop.facet(st.tuples(st.integers(1, 6), st.integers(1, 8), st.lists(st.tuples(st.integers(1, 3), small), min_size=1, max_size=6), st.lists(st.sampled_from(['keep_mem', 'keep_mem', 'keep_db', 'to_db']), min_size=1, max_size=4),
                      st.lists(st.one_of(st.tuples(st.just('archive'), st.integers(-1, 8), st.integers(0, 14)), st.tuples(st.just('archive'), st.just(-1), st.just(99)), st.tuples(st.just('sync'), st.one_of(st.none(), st.integers(1, 4))), st.just(('latest',)), st.just(('latest',))), max_size=4),
                      st.lists(st.tuples(st.integers(1, 3), small), max_size=4), S.schedules(), st.sampled_from([True, True, True, False])),
            'something was stored or dropped in the meantime', quick=2000, thorough=20000)
def shared(case):
    """A thread adds, another one cleans up and yet another one reads: nothing is lost, repeated or reordered"""
    mem_span, extra, added, cleaning, reading, before, schedule, trace = case
    db = SharedDB()
    db_span = mem_span + extra
    begun, done = {}, []
    k = -1
    for d, v in before:
        k += d
        db.data[k] = v
        begun[k] = v
        done.append(k)
    sd = SyncableDroppable(db, done[0] if done else None, done[-1] if done else None, None, mem_span, db_span)
    synced = [None]
    touched = []

    def produce():
        k = max(begun, default=-1)
        for d, v in added:
            k += d
            begun[k] = v
            sd.on_new_data(k, v)
            done.append(k)

    def clean():
        for what in cleaning:
            n = len(db.data)
            {'keep_mem': sd.cleanup_keep_in_memory, 'keep_db': sd.cleanup_keep_in_db, 'to_db': sd.sync_to_db}[what]()
            if len(db.data) != n:
                touched.append(what)

    def read():
        for o in reading:
            had = list(done)
            if o[0] == 'latest':
                try:
                    k, v = sd.get_latest_value()
                except ValueError:
                    check(not had, 'no latest value, though there was %s', had)
                    continue
                check(v == begun[k] and (not had or k >= had[-1]), 'latest value %r, though there was %r', (k, v), had)
                continue
            if o[0] == 'archive':
                limit, lo, hi = None, o[1], o[2]
                got = []
                for row in sd.get_archive(lo, hi):
                    got.append(row)
                    point()
            else:
                limit, lo, hi = o[1], -1 if synced[0] is None else synced[0] + 1, 999
                try:
                    it = sd.on_sync_request() if limit is None else sd.on_sync_request(limit)
                except ValueError:
                    it = ()
                got = list(it)
            keys = [k for k, _ in got]
            eq(got, [(k, begun[k]) for k in sorted(set(keys)) if lo <= k <= hi], 'what was read by %r' % (o,))
            cutoff = max(begun, default=0) - db_span
            must = [k for k in had if lo <= k <= hi and k >= cutoff]
            if limit is not None:
                check(len(got) <= limit, 'too many')
                if len(got) == limit:
                    must = [k for k in must if k <= keys[-1]]
            eq([k for k in must if k not in keys], [], 'was there, but not read by %r, that has read %r' % (o, keys))
            if o[0] == 'sync' and got:
                synced[0] = keys[-1]
                sd.on_synced_up_to(keys[-1])
    S.Scheduler(schedule, trace).run(produce, clean, read)
    mem = list(sd.data_in_memory)
    eq(sorted(set(k for k, _ in mem) & set(db.data)), [], 'both in memory and in the database')
    rows = sorted(db.data.items()) + mem
    eq(rows, [(k, begun[k]) for k in sorted(k for k, _ in rows)], 'contents')
    cutoff = max(begun, default=0) - db_span
    eq([k for k in begun if k >= cutoff and (k, begun[k]) not in rows], [], 'lost, out of %r' % (rows,))
    eq((sd.start_entry, sd.stop_entry, sd.synced_up_to), (rows[0][0] if rows else None, max(begun, default=None), synced[0]), 'start, stop, synced')
    sd.cleanup_keep_in_memory()
    sd.cleanup_keep_in_db()
    eq(list(sd.get_archive(-1, 999)), [(k, v) for k, v in sorted(begun.items()) if k >= cutoff], 'everything that was to be kept')
    eq(db.open, 0, 'iterators of the storage left open')
    return bool(touched)
