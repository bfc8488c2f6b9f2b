bug('time-heap-pop-item', 'P01',
    'popping a specific item out of the middle of a time heap of at least four items, then releasing by time',
    'removal of an item from the middle moves the last entry into its place without restoring the heap order',
    [('satella/coding/structures/heaps/time.py',
      '''            if elem[1] == item:
                obj = self.data.pop(index)
                heapq.heapify(self.data)
                return obj''',
      '''            if elem[1] == item:
                obj = elem
                last = self.data.pop()
                if index < len(self.data):
                    self.data[index] = last
                    if last < obj:
                        heapq.heapify(self.data)
                return obj''')],
    '''
    from satella.coding.structures import TimeBasedHeap
    h = TimeBasedHeap()
    for i in (1, 2, 8, 4, 5, 9, 10):
        h.put(i, str(i))
    h.pop_item('2')
    got = [t for t, _ in h.pop_less_than(100)]
    assert got == sorted(got), got
    assert len(got) == 6
    ''')

bug('cache-refresh-failure', 'P05',
    'a stale entry that has gone missing from the source by the time of its background refresh, with failures cached',
    'a refresh that finds the key gone leaves the stale value being served',
    [('satella/coding/structures/dictionaries/cache_dict.py',
      """            except KeyError:
                self._on_failure(key)
            else:
                self[key] = result""",
      """            except KeyError:
                if key not in self.data or not self.cache_failures:
                    self._on_failure(key)
            else:
                self[key] = result""")],
    """
    from satella.coding.structures import CacheDict
    now = [0.0]
    src = {'k': 1}
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(1)
    cd = CacheDict(5, 10, src.__getitem__, ex, cache_failures_interval=5, time_getter=lambda: now[0])
    assert cd['k'] == 1
    del src['k']
    now[0] = 6
    assert cd['k'] == 1
    ex.submit(int).result()
    try:
        cd['k']
    except KeyError:
        pass
    else:
        raise SystemExit('stale value served after a failed refresh')
    """)

bug('ranking-removal', 'P02',
    'removing the last but one element of a ranking',
    'the element which becomes the last one keeps its previous position',
    [('satella/coding/structures/ranking.py',
      """        index = self.ranking.index(item)
        self.ranking.remove(item)
        for position""",
      """        index = self.ranking.index(item)
        self.ranking.remove(item)
        if 0 < index == len(self.ranking) - 1:
            return
        for position""")],
    """
    import collections
    from satella.coding.structures import Ranking
    E = collections.namedtuple('E', 'key')
    es = [E(i) for i in range(4)]
    r = Ranking(list(es), lambda e: e.key)
    r.remove(es[2])
    assert r.calculate_ranking_for(es[3]) == 2
    """)

bug('expiring-overwrite-keeps-deadline', 'P04',
    'an entry overwritten shortly before it would expire, then read after the first deadline and before the second',
    'an overwritten entry keeps its previous expiration moment',
    [('satella/coding/structures/dictionaries/expiring.py',
      """        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
        self.data[key] = value""",
      """        if self.data.get(key) != value or key not in self:
            self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
        self.data[key] = value""")],
    """
    from satella.coding.structures import ExpiringEntryDict
    now = [0]
    d = ExpiringEntryDict(10, time_getter=lambda: now[0])
    d['a'] = 1
    now[0] = 8
    d['a'] = 1
    now[0] = 15
    assert d['a'] == 1
    """)

bug('writeback-miss-after-delete', 'P06',
    'more than a hundred operations, the hundredth of them a read, while a write is delayed',
    'one read of every hundred goes to the storage instead of the cache, so it misses writes which are still pending',
    [('satella/coding/structures/dictionaries/writeback_cache.py',
      """    def __setitem__(self, key: K, value: V) -> None:
        with self.cache_lock:""",
      """    def __setitem__(self, key: K, value: V) -> None:
        if self.operations >= 100 and key in self.in_cache:
            self.in_cache.remove(key)
        with self.cache_lock:"""),
     ('satella/coding/structures/dictionaries/writeback_cache.py',
      """            if item not in self.cache and self.store_key_errors:
                raise KeyError()""",
      """            if self.operations == 100 and self.delete_method is not None:
                return self.executor.submit(self.read_method, item).result()
            if item not in self.cache and self.store_key_errors:
                raise KeyError()""")],
    """
    from satella.coding.structures import ExclusiveWritebackCache
    import threading, time
    from concurrent.futures import ThreadPoolExecutor
    reads = []
    storage = {}
    def read(k):
        reads.append(k)
        return storage[k]
    c = ExclusiveWritebackCache(storage.__setitem__, read, storage.__delitem__, ThreadPoolExecutor(1))
    c[1] = 'a'
    for i in range(250):
        assert c[1] == 'a'
    assert not reads, reads
    """)

bug('proxy-inplace-list', 'P08',
    'an in-place multiplication of a proxied list that somebody else refers to',
    'in-place multiplication replaces a wrapped list by a new one, instead of altering it',
    [('satella/coding/structures/proxy.py',
      """        self.__obj *= other
        return self""",
      """        self.__obj = self.__obj * other
        return self""")],
    """
    from satella.coding.structures import Proxy
    x = [1, 2]
    p = Proxy(x)
    p *= 2
    assert x == [1, 2, 1, 2], x
    """)

bug('syncable-cutoff', 'P11',
    'a database span whose cutoff falls exactly on an entry which is in the database',
    'an entry exactly at the cutoff is dropped from the database although it is to be kept',
    [('satella/coding/structures/syncable_droppable.py',
      """                if key < cutoff_span:
                    self.db_storage.delete(key)""",
      """                if key <= cutoff_span:
                    self.db_storage.delete(key)""")],
    """
    import sys, os
    from satella.coding.structures import SyncableDroppable, DBStorage
    class S(DBStorage):
        def __init__(self): self.d = {}
        def iterate(self, start):
            def gen():
                for k in sorted(self.d):
                    if start is None or k >= start:
                        yield k, self.d[k]
            return gen()
        def put(self, k, v): self.d[k] = v
        def delete(self, k): del self.d[k]
        def on_change_start_entry(self, v): pass
        def on_change_stop_entry(self, v): pass
        def on_change_synced_up_to(self, v): pass
    s = S()
    sd = SyncableDroppable(s, None, None, None, 2, 10)
    for k in (1, 5, 11, 14, 15):
        sd.on_new_data(k, k)
    sd.cleanup_keep_in_memory()
    sd.cleanup_keep_in_db()
    assert 5 in s.d, s.d
    """)

bug('construable-order', 'P12',
    'adding several elements for immediate iteration while others, added the same way, are still waiting',
    'elements added for immediate iteration come out reversed if the iterator has many elements left',
    [('satella/coding/sequences/iterators.py',
      """        for i, entry in enumerate(t):
            self.entries.insert(i, entry)""",
      """        if len(self.entries) < 8:
            for i, entry in enumerate(t):
                self.entries.insert(i, entry)
        else:
            self.entries.extendleft(t)""")],
    """
    from satella.coding.sequences import ConstruableIterator
    c = ConstruableIterator([0, 0, 0, 0, 1, 2, 3, 4, 5])
    c.add_many_immediate([8, 9])
    assert list(c) == [8, 9, 0, 0, 0, 0, 1, 2, 3, 4, 5]
    """)


bug('peekable-queue-fast-path', 'P15',
    'two threads getting from a queue with a single item, the second one taking it between the length check and the removal done by the first one',
    'the fast path releases the lock before it takes the item',
    [('satella/coding/concurrent/queue.py',
      """        if len(self.queue):
            # Fast path
            try:
                return item_getter(self.queue)
            finally:
                self.lock.release()
        else:""",
      """        available = len(self.queue)
        if available:
            # Fast path, deque operations are atomic on their own
            self.lock.release()
            return item_getter(self.queue)
        else:""")],
    """
    import threading
    from satella.coding.concurrent import PeekableQueue
    from satella.exceptions import Empty
    q = PeekableQueue()
    class Lock:
        # lets another getter in right after the first release
        def __init__(self):
            self.real, self.armed = threading.Lock(), False
        def acquire(self, *a):
            return self.real.acquire(*a)
        def release(self):
            self.real.release()
            if self.armed:
                self.armed = False
                try:
                    stolen.append(q.get(timeout=0.1))
                except Empty:
                    pass
        def __enter__(self):
            self.acquire()
        def __exit__(self, *a):
            self.release()
    stolen = []
    q.lock = Lock()
    q.put('x')
    q.lock.armed = True
    assert q.get(timeout=1) == 'x' and not stolen
    """)

bug('monitor-release-failing', 'P16',
    'an exception raised within a temporarily released section while another thread is inside of the monitor',
    'leaving Monitor.release by an exception does not wait for the lock, so the rest of the protected section runs concurrently with its other owner',
    [('satella/coding/concurrent/monitor.py',
      """        def __exit__(self, e1, e2, e3) -> bool:
            # noinspection PyProtectedMember
            self.foo._monitor_lock.acquire()
            return False""",
      """        def __exit__(self, e1, e2, e3) -> bool:
            # noinspection PyProtectedMember
            # when unwinding due to an exception, do not block it
            self.foo._monitor_lock.acquire(blocking=e1 is None)
            return False""")],
    """
    import threading, time
    from satella.coding.concurrent import Monitor
    m = Monitor()
    entered, inside = threading.Event(), []
    def other():
        with Monitor.acquire(m):
            entered.set()
            inside.append(1)
            time.sleep(0.5)
            inside.remove(1)
    t = threading.Thread(target=other)
    with m:
        try:
            with Monitor.release(m):
                t.start()
                entered.wait()
                raise ValueError()
        except ValueError:
            pass
        assert not inside, 'two threads inside of the monitor'
    t.join()
    """)

bug('timer-batch', 'P18',
    'two timers due at the same wake-up of the background thread, the earlier of which raises an exception',
    'a failing timer takes with it all the timers picked up together with it',
    [('satella/coding/concurrent/timer.py',
      """            for item in items_to_exec:
                with log_exceptions(logger, swallow_exception=True):
                    item[1]._try_execute()""",
      """            with log_exceptions(logger, swallow_exception=True):
                for item in items_to_exec:
                    item[1]._try_execute()""")],
    """
    import time
    from satella.coding.concurrent import Timer
    done = []
    def fail():
        time.sleep(0.6)     # so that the others will be picked up together
        raise ValueError()
    def fail2():
        raise ValueError()
    Timer(0.1, fail).start()
    Timer(0.3, fail2).start()
    Timer(0.4, done.append, args=[1]).start()
    time.sleep(2.5)
    assert done == [1], done
    """)

bug('rethrow-duplicates', 'P19',
    'a translation in which the same exception class is listed twice with different targets',
    'the last entry for a class decides instead of the first',
    [('satella/coding/recast_exceptions.py',
      """        self.mapping = list(pairs)
""",
      """        self.mapping = list(dict(pairs).items())
""")],
    """
    from satella.coding import rethrow_as
    try:
        with rethrow_as((ValueError, KeyError), (OSError, IndexError), (ValueError, TypeError)):
            raise ValueError()
    except KeyError:
        pass
    """)

bug('predicate-one-of', 'P20',
    'an argument which cannot be hashed, checked against values which can',
    'one_of() fails instead of answering False',
    [('satella/coding/predicates.py',
      """        return make_operation_two_args(_one_of)(self, values)
""",
      """        try:
            values = frozenset(values)      # faster to look up
        except TypeError:
            pass
        return make_operation_two_args(_one_of)(self, values)
""")],
    """
    from satella.coding.predicates import x
    p = x.one_of(1, 'a', (2,))
    assert p(1) and not p(2)
    assert p([2]) is False
    """)

bug('attached-arguments-leak', 'P21',
    'two calls of a function with attached arguments, the former of which was given a keyword argument the latter was not',
    'keyword arguments of former calls are passed on to the next ones',
    [('satella/coding/decorators/arguments.py',
      """            my_kwargs.update(kwargs)
            return fun(*my_args, *args, **my_kwargs)
""",
      """            for key, value in my_kwargs.items():
                kwargs.setdefault(key, value)
            return fun(*my_args, *args, **kwargs)
""")],
    """
    from satella.coding.decorators import attach_arguments
    @attach_arguments(2, label='value')
    def f(*args, **kwargs):
        return args, kwargs
    assert f(1, key=5) == ((1, 2), {'key': 5, 'label': 'value'})
    assert f(1) == ((1, 2), {'label': 'value'})
    """)

bug('chain-leaks-keywords', 'P22',
    'chained functions called with keyword arguments, the first of which returns a tuple of arguments',
    'keyword arguments of the first function are passed to the second one as well',
    [('satella/coding/decorators/decorators.py',
      """            elif isinstance(ret, tuple):
                args = ret
                kwargs = {}
            else:
                args = ret,
                kwargs = {}
            return fun_next(*args, **kwargs)
""",
      """            else:
                args = ret if isinstance(ret, tuple) else (ret,)
            return fun_next(*args, **kwargs)
""")],
    """
    from satella.coding.decorators import chain_functions
    @chain_functions
    def first(*args, **kwargs):
        return kwargs.get('returns', 7)
    @first
    def second(*args, **kwargs):
        return args, kwargs
    assert second() == ((7,), {})
    assert second(returns=(1, 2, 3)) == ((1, 2, 3), {})
    assert second(returns=5) == ((5,), {})
    """)

bug('overload-dispatch-cache', 'P23',
    'a function called, then given a more specific overload, and called with arguments of the same types',
    'the implementation chosen for types of arguments is remembered, and not forgotten when an overload is added',
    [('satella/coding/overloading.py',
      """        self.type_signatures_to_functions = {TypeSignature.from_fun(fun): fun}
""",
      """        self.type_signatures_to_functions = {TypeSignature.from_fun(fun): fun}
        self._chosen = {}
"""),
     ('satella/coding/overloading.py',
      """        best_sign, best_fun = None, None
""",
      """        types = tuple(type(arg) for arg in args)
        if not kwargs and types in self._chosen:
            return self._chosen[types](*args)
        best_sign, best_fun = None, None
"""),
     ('satella/coding/overloading.py',
      """            raise TypeError('No matching entries!')
        return best_fun(*args, **kwargs)
""",
      """            raise TypeError('No matching entries!')
        if not kwargs:
            self._chosen[types] = best_fun
        return best_fun(*args, **kwargs)
""")],
    """
    from satella.coding import overload
    @overload
    def f(x: object):
        return 'object'
    assert f(5) == 'object'
    @f.overload
    def f(x: int):
        return 'int'
    assert f('a') == 'object'
    assert f(5) == 'int'
    """)

bug('context-deleted-variable', 'P24',
    'a variable of an outer context, deleted in an inner one, whose existence is then asked for',
    'existence of a deleted variable is looked up in outer contexts',
    [('satella/coding/environment.py',
      """        if val in self.variables:
            if self.variables[val] is THEY_HATIN:
                return False
            return True
        else:
            if self.parent is None:
                return False
            return self.parent.does_exist(val)
""",
      """        if self.variables.get(val, THEY_HATIN) is not THEY_HATIN:
            return True
        if self.parent is None:
            return False
        return self.parent.does_exist(val)
""")],
    """
    from satella.coding import Context
    with Context() as outer:
        outer.value = 1
        with Context() as inner:
            assert inner.does_exist('value')
            del inner.value
            assert not inner.does_exist('value')
        assert outer.does_exist('value')
    """)

bug('pool-close-race', 'P25',
    'a connection released by another thread after the pool has dropped idle ones, but before close() returns',
    'the pool is marked as closed after dropping idle connections, so one released in between is never torn down',
    [('satella/coding/resources/cp_manager.py',
      """            self.terminating = True
            self.invalidate()
""",
      """            self.invalidate()
            self.terminating = True
""")],
    """
    import threading
    from satella.coding.resources import CPManager
    made, dead = [], []
    class Pool(CPManager):
        def create_connection(self):
            made.append(object())
            return made[-1]
        def teardown_connection(self, c):
            dead.append(c)
        def invalidate(self):
            super().invalidate()
            if held:
                t = threading.Thread(target=self.release_connection, args=(held.pop(),))
                t.start()
                t.join()
    held = []
    pool = Pool(2, 10)
    held.append(pool.acquire_connection())
    pool.close()
    assert dead == made, 'a connection remains open'
    """)

bug('schema-boolean-substring', 'P26',
    'a string given for a boolean that is a part of FALSE, for instance an empty one or "f"',
    'strings that are not booleans are accepted as False rather than rejected',
    [('satella/configuration/schema/basic.py',
      "        elif v.upper() == 'FALSE':\n",
      "        elif v.upper() in 'FALSE':\n")],
    """
    from satella.configuration.schema import Boolean
    from satella.exceptions import ConfigurationValidationError
    assert Boolean()('False') is False and Boolean()('true') is True
    for bad in ('', 'f', 'AL', 'no'):
        try:
            Boolean()(bad)
        except ConfigurationValidationError:
            pass
        else:
            raise AssertionError(repr(bad) + ' was taken for a boolean')
    """)

bug('merging-source-empty', 'P27',
    'MergingSource that is silent on failures, when the only sources that work provide an empty configuration',
    'a correct, but empty, configuration is counted as a failed source',
    [('satella/configuration/sources/derivative.py',
      "                correct_sources += 1\n",
      "                correct_sources += bool(p)\n")],
    """
    from satella.configuration.sources import MergingSource, JSONSource
    def DirectSource(x):
        import json
        return JSONSource(json.dumps(x))
    assert MergingSource(JSONSource('{'), DirectSource({'a': 1}), on_fail=MergingSource.SILENT).provide() == {'a': 1}
    assert MergingSource(JSONSource('{'), DirectSource({}), on_fail=MergingSource.SILENT).provide() == {}
    """)

bug('import-from-underscores', 'P28',
    'a package within a package, imported with skip_single_underscores=False, having underscored names',
    'the flag is forgotten below the first level, so names that were asked for are not imported',
    [('satella/imports.py',
      """                        skip_not_having_all=skip_not_having_all,
                        skip_single_underscores=skip_single_underscores),
""",
      """                        skip_not_having_all=skip_not_having_all)
""")],
    """
    import os, sys, tempfile, shutil
    d = tempfile.mkdtemp()
    try:
        os.makedirs(d + '/demopkg/inner')
        def put(name, text):
            with open(os.path.join(d, 'demopkg', name), 'w') as f:
                f.write(text)
        put('__init__.py', '__all__ = []')
        put('inner/__init__.py', '__all__ = []')
        put('inner/mod.py', "__all__ = ['_hidden', 'shown']\\n_hidden = 1\\nshown = 2\\n")
        sys.path.insert(0, d)
        import demopkg
        from satella.imports import import_from
        import_from(demopkg.__path__, 'demopkg', demopkg.__all__, demopkg.__dict__,
                    skip_single_underscores=False)
        import demopkg.inner
        assert demopkg.inner.shown == 2
        assert '_hidden' in demopkg.inner.__all__ and demopkg.inner.__dict__['_hidden'] == 1
    finally:
        shutil.rmtree(d)
    """)

bug('jump-to-directory-entered-later', 'P29',
    'jump_to_directory made in one working directory and entered in another one',
    'leaving returns to the directory in which the object was made, and not to the one it was entered from',
    [('satella/files.py',
      """        self.prev_path = None
        os.makedirs(self.path, mode=mode, exist_ok=True)

    def __enter__(self):
        self.prev_path = os.getcwd()
        os.chdir(self.path)
""",
      """        self.prev_path = os.getcwd()
        os.makedirs(self.path, mode=mode, exist_ok=True)

    def __enter__(self):
        os.chdir(self.path)
""")],
    """
    import os, tempfile, shutil
    from satella.files import jump_to_directory
    d = os.path.realpath(tempfile.mkdtemp())
    try:
        for name in 'abc':
            os.mkdir(os.path.join(d, name))
        os.chdir(d + '/a')
        jump = jump_to_directory(d + '/c')
        os.chdir(d + '/b')
        with jump:
            assert os.getcwd() == d + '/c'
        assert os.getcwd() == d + '/b', os.getcwd()
    finally:
        os.chdir('/')
        shutil.rmtree(d)
    """)

bug('data-object-inherited-default', 'P31',
    'a JSONAbleDataObject that annotates a field again, whose default is given by its parent',
    'defaults that were inherited are not used',
    [('satella/json.py',
      "                if not hasattr(self, annotation):\n",
      "                if annotation not in self.__class__.__dict__:\n")],
    """
    from satella.json import JSONAbleDataObject
    class Base(JSONAbleDataObject):
        name: str
        units: str = 'metric'
    class Derived(Base):
        name: str
        units: str
    assert Base(name='x').to_json() == {'name': 'x', 'units': 'metric'}
    assert Derived(name='x').to_json() == {'name': 'x', 'units': 'metric'}
    """)

bug('parser-window-reset', 'P30',
    'reset() of a parser that has a window into a part of the stream, followed by reads',
    'a parser that was reset reads from the start of the stream, and so from outside of its window',
    [('satella/parsing.py',
      "        self.pointer = self.init_ofs\n",
      "        self.pointer = 0\n")],
    """
    from satella.parsing import BinaryParser
    bp = BinaryParser(b'abcdef')
    bp.skip(2)
    inner = bp.get_parser(2)
    assert inner.get_bytes(2) == b'cd'
    inner.reset()
    assert inner.get_bytes(2) == b'cd'
    """)

bug('backoff-grace-once', 'P32',
    'ExponentialBackoff with a grace amount, a success after some failures and then failures again',
    'grace is given once in a lifetime of the backoff, and not anew after each success',
    [('satella/time/backoff.py',
      "        self.counter = 0\n        self.grace_counter = 0\n        self.unavailable_until = None\n        self.condition.notify_all()\n",
      "        self.counter = 0\n        self.unavailable_until = None\n        self.condition.notify_all()\n")],
    """
    from satella.time import ExponentialBackoff
    eb = ExponentialBackoff(start=1, limit=30, grace_amount=2)
    for i in range(2):
        eb.failed()
        eb.failed()
        assert eb.available, 'no grace at attempt %s' % (i,)
        eb.failed()
        assert not eb.available
        eb.success()
        assert eb.available
    """)

bug('cps-longest-period', 'P33',
    'a cps metric with periods that are not given in an ascending order, and clicks in between of them',
    'clicks are forgotten after the last period given and not after the longest one',
    [('satella/instrumentation/metrics/metric_types/cps.py',
      "        self.cutoff_period = max(time_unit_vectors)  # type: int\n",
      "        self.cutoff_period = time_unit_vectors[-1]  # type: int\n")],
    """
    import time
    now = [1000.0]
    time.monotonic = lambda: now[0]
    from satella.instrumentation.metrics import getMetric
    for name, periods in (('a', [1, 10]), ('b', [10, 1])):
        m = getMetric('clicks.' + name, 'cps', time_unit_vectors=periods)
        m.runtime()
        now[0] += 5
        m.runtime()
        got = {x.labels['period']: x.value for x in m.to_metric_data().values}
        assert got == {1: 1, 10: 2}, got
    """)

bug('getmetric-base-of-another-type', 'P34',
    'getMetric() called without a type for a metric that exists with another type',
    'a metric of another type is returned instead of telling that it already exists',
    [('satella/instrumentation/metrics/__init__.py',
      "            if metrics[metric_name].CLASS_NAME != metric_type:\n",
      "            if metric_type not in ('base', metrics[metric_name].CLASS_NAME):\n")],
    """
    from satella.instrumentation.metrics import getMetric
    from satella.exceptions import MetricAlreadyExists
    a = getMetric('demo.counter', 'counter')
    assert getMetric('demo.counter', 'counter') is a
    for type_ in ('int', 'base'):
        try:
            getMetric('demo.counter', type_)
        except MetricAlreadyExists:
            pass
        else:
            raise AssertionError('no complaint about type ' + type_)
    """)

bug('metric-data-zero-timestamp', 'P35',
    'metric data with a timestamp of zero, sent as JSON',
    'a timestamp of zero does not survive a round trip through JSON',
    [('satella/instrumentation/metrics/data.py',
      "        if self.timestamp is not None:\n",
      "        if self.timestamp:\n")],
    """
    from satella.instrumentation.metrics import MetricData
    for timestamp in (None, 0, 0.0, 1, 2.5):
        md = MetricData('a', 1, {'x': 1}, timestamp)
        assert MetricData.from_json(md.to_json()).timestamp == timestamp, timestamp
    """)

bug('metrified-lru-default-factory', 'P36',
    'a MetrifiedLRUCacheDict with a factory of defaults, whose value getter raises KeyError',
    'the factory is not used, contrary to an LRUCacheDict',
    [('satella/instrumentation/metrics/structures/cache_dict.py',
      """        super().__init__(stale_interval, expiration_interval, value_getter,
                         value_getter_executor, cache_failures_interval, time_getter,
                         default_value_factory, max_size=max_size)
""",
      """        super().__init__(stale_interval, expiration_interval, value_getter,
                         value_getter_executor, cache_failures_interval, time_getter,
                         max_size=max_size)
        self.default_value_factory = None
""")],
    """
    from satella.instrumentation.metrics.structures import MetrifiedLRUCacheDict
    def getter(key):
        raise KeyError(key)
    c = MetrifiedLRUCacheDict(5, 10, getter, default_value_factory=lambda: 'default', max_size=3)
    assert c['x'] == 'default'
    """)

bug('traceback-equal-reprs', 'P37',
    'two tracebacks that differ only in type of a variable whose representation is the same',
    'such tracebacks are told to be equal',
    [('satella/instrumentation/trace_back/classes.py',
      "        return self.repr == other.repr and self.type_ == other.type_\n",
      "        return self.repr == other.repr\n")],
    """
    from satella.instrumentation import Traceback
    class A:
        def __repr__(self):
            return 'x'
    class B(A):
        pass
    def f(x):
        try:
            raise ValueError()
        except ValueError:
            return Traceback()
    assert f(A()) == f(A())
    assert f(A()) != f(B())
    """)

bug('excepthook-failing-handler', 'P38',
    'an exception handler that raises, and another one of a lower priority',
    'a failing handler prevents the other ones from being called',
    [('satella/exception_handling/global_eh.py',
      """        for hook in sorted(hooks_to_run, key=lambda h: h.priority):
            # noinspection PyBroadException
            try:
                if hook.handle_exception(type_, value, traceback):
                    break
            except Exception as e:
                tb = Traceback()
                sys.stderr.write('Error while processing a hook: \\n')
                tb.pretty_print(output=sys.stderr)

                if not self.ignore_failed_hooks:
                    raise NotImplementedError(
                        'Hook failed (%s), but ignore_failed_hooks was false' % (
                            repr(e)))
""",
      """        # noinspection PyBroadException
        try:
            for hook in sorted(hooks_to_run, key=lambda h: h.priority):
                if hook.handle_exception(type_, value, traceback):
                    break
        except Exception as e:
            tb = Traceback()
            sys.stderr.write('Error while processing a hook: \\n')
            tb.pretty_print(output=sys.stderr)

            if not self.ignore_failed_hooks:
                raise NotImplementedError(
                    'Hook failed (%s), but ignore_failed_hooks was false' % (
                        repr(e)))
""")],
    """
    import sys, threading, io
    from satella.exception_handling import GlobalExcepthook, exception_handler
    called = []
    @exception_handler(priority=1)
    def failing(type_, value, tb):
        called.append('failing')
        raise RuntimeError('handler failed')
    @exception_handler(priority=2)
    def working(type_, value, tb):
        called.append('working')
        return True
    GlobalExcepthook().add_hook(failing)
    GlobalExcepthook().add_hook(working)
    sys.stderr = io.StringIO()
    threading.excepthook = lambda args: None
    def run():
        raise ValueError('x')
    t = threading.Thread(target=run)
    t.start()
    t.join()
    assert called == ['failing', 'working'], called
    """)

bug('memory-pressure-jump', 'P39',
    'memory consumption rising or falling by more than a single severity level at once',
    'levels in between are not told as left when falling',
    [('satella/instrumentation/memory/memthread.py',
      """                self.severity_level += delta
                if self.severity_level == 0:
""",
      """                self.severity_level = target_level
                if self.severity_level == 0:
""")],
    """
    from satella.instrumentation.memory import MemoryPressureManager, CustomCondition
    level = [0]
    mp = MemoryPressureManager(None, [CustomCondition(lambda: level[0] >= 1),
                                      CustomCondition(lambda: level[0] >= 2)], 3600)
    seen = []
    for i in (1, 2):
        MemoryPressureManager.register_on_left_severity(i)(lambda i=i: seen.append(i))
    mp.advance_to_severity_level(2)
    mp.advance_to_severity_level(0)
    assert seen == [2, 1], seen
    """)

bug('cpu-aware-sleep-of-both', 'P40',
    'sleep_cpu_aware() told to wake up both above one and below another occupancy, with occupancy going below',
    'a condition on going below is not looked at if a condition on going above was given',
    [('satella/instrumentation/cpu_time/collector.py',
      """            if of_below is not None:
                if of < of_below:
""",
      """            elif of_below is not None:
                if of < of_below:
""")],
    """
    import time
    from satella.instrumentation.cpu_time import collector
    collector.calculate_occupancy_factor = lambda: 0.5
    time.sleep = lambda x: None
    assert collector.sleep_cpu_aware(5, of_below=0.6)
    assert collector.sleep_cpu_aware(5, of_above=0.4)
    assert collector.sleep_cpu_aware(5, of_below=0.6, of_above=0.9)
    assert not collector.sleep_cpu_aware(5, of_below=0.4, of_above=0.9)
    """)

bug('pidlock-released-by-another', 'P41',
    'a lock acquired, released and then released again while another one holds it',
    'a lock that was already released removes the file of whoever holds it now',
    [('satella/os/pidlock.py',
      """        os.unlink(self.path)
        self.file_no = None
""",
      """        os.unlink(self.path)
""")],
    """
    import os, tempfile, shutil
    from satella.os import PIDFileLock
    d = tempfile.mkdtemp()
    try:
        a, b = PIDFileLock('x.pid', d), PIDFileLock('x.pid', d)
        a.acquire()
        a.release()
        b.acquire()
        try:
            a.release()
        except RuntimeError:
            pass
        assert os.path.exists(d + '/x.pid'), 'the lock of another was removed'
        b.release()
    finally:
        shutil.rmtree(d)
    """)

bug('tainted-iteration', 'P42',
    'iterating over a tainted iterable whose elements were not tainted beforehand, eg. a tuple',
    'elements obtained by iterating are not tainted',
    [('satella/debug/tainting/tainteds.py',
      "            yield taint(item)\n",
      "            yield item\n")],
    """
    from satella.debug import TaintingEnvironment
    from satella.debug.tainting import taint
    from satella.debug.tainting.tainteds import TaintedObject
    with TaintingEnvironment():
        for value in ([1], (1,), {1}, 'a'):
            for element in taint(value):
                assert isinstance(element, TaintedObject), value
    """)

bug('parallel-for-one-by-one', 'P43',
    'more than a single set of arguments given to parallel_for, with results that are awaited',
    'queries are sent one by one, each after the result of the previous one was received',
    [('satella/cassandra/parallel.py',
      """        futures.append(future)

    for future in futures:
        yield future.result()
""",
      """        yield future.result()
""")],
    """
    from satella.cassandra import parallel_for
    events = []
    class Future:
        def __init__(self, i):
            self.i = i
        def result(self):
            events.append('got')
            return self.i
    class Cursor:
        def execute_async(self, query, args=None):
            events.append('sent')
            return Future(args[0])
    assert list(parallel_for(Cursor(), 'q', [(1,), (2,)])) == [1, 2]
    assert events == ['sent', 'sent', 'got', 'got'], events
    """)

bug('two-way-none-value', 'P03',
    'a key of a two-way dictionary that holds None being given another value',
    'the reverse mapping keeps the previous value, if that was None',
    [('satella/coding/structures/dictionaries/objects.py',
      '''        try:
            prev_val = self.data[key]
            del self.reverse_data[prev_val]
        except KeyError:
            pass

        self.data[key] = value
''',
      '''        prev_val = self.data.get(key)
        if prev_val is not None:
            del self.reverse_data[prev_val]

        self.data[key] = value
''')],
    """
    from satella.coding.structures import TwoWayDictionary
    twd = TwoWayDictionary({1: None})
    twd[1] = 2
    assert dict(twd.reverse) == {2: 1}, dict(twd.reverse)
    """)

bug('expiring-write-in-two-steps', 'P04',
    'a cleanup by another thread in the midst of overwriting an entry that has expired already',
    'the overwritten entry loses its value, while its key is still said to be there',
    [('satella/coding/structures/dictionaries/expiring.py',
      '''    @Monitor.synchronized
    def __setitem__(self, key: K, value: V) -> None:
        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
        self.data[key] = value
''',
      '''    def __setitem__(self, key: K, value: V) -> None:
        self.data[key] = value
        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
''')],
    """
    import threading
    from satella.coding.structures import ExpiringEntryDict
    now = [0.0]
    cleaner = []

    def getter():
        if cleaner and threading.current_thread() is threading.main_thread():
            t = threading.Thread(target=cleaner.pop(), daemon=True)
            t.start()
            t.join(1)
        return now[0]
    d = ExpiringEntryDict(10, time_getter=getter)
    d['k'] = 'old'
    now[0] = 20.0
    cleaner.append(d.cleanup)
    d['k'] = 'new'
    assert d['k'] == 'new'
    assert dict(d) == {'k': 'new'}
    """)

bug('matrix-falsy-overwritten', 'P07',
    'a cell holding a false value (zero) overwritten and deleted later',
    'the column is counted twice, and the matrix stays too wide after the cell was deleted',
    [('satella/coding/structures/sparse_matrix.py',
      "            elif col not in self.rows_dict[row]:\n                self._increment_column_count(col)",
      "            elif not self.rows_dict[row].get(col):\n                self._increment_column_count(col)")],
    """
    from satella.coding.structures import SparseMatrix
    sm = SparseMatrix()
    sm[0, 0] = 1
    sm[3, 0] = 0
    sm[3, 0] = 5
    del sm[3, 0]
    assert sm.columns == 1, sm.columns
    """)

bug('singleton-false-instance', 'P09',
    'a singleton with regards to arguments whose instances are false (eg. empty containers)',
    'a false instance is made anew each time',
    [('satella/coding/structures/singleton.py',
      '''            if key in it:
                return it[key]
''',
      '''            existing = it.get(key)
            if existing:
                return existing
''')],
    """
    from satella.coding.structures import SingletonWithRegardsTo
    @SingletonWithRegardsTo(num_args=1)
    class Box:
        def __init__(self, name):
            self.items = []
        def __len__(self):
            return len(self.items)
    assert Box('a') is Box('a')
    """)

bug('typed-tuple-keyword-order', 'P10',
    'a typed named tuple of more than two fields with the first given by position and the others by keywords',
    'fields given by keywords are converted with types of fields that come elsewhere',
    [('satella/coding/structures/typednamedtuple.py',
      '''            for next_field_name in fieldnames[len(nargs):]:
                try:
                    nargs.append(_adjust((kwargs.pop(next_field_name), mapping[next_field_name])))
                except KeyError:
                    raise TypeError('Field %s not given', next_field_name)
''',
      '''            for type_, next_field_name in zip(typeops[len(args):] if not kwargs.keys() - fieldnames[:2] else typeops, fieldnames[len(nargs):]):
                try:
                    nargs.append(_adjust((kwargs.pop(next_field_name), type_)))
                except KeyError:
                    raise TypeError('Field %s not given', next_field_name)
''')],
    """
    from satella.coding.structures import typednamedtuple
    T = typednamedtuple('T', ('a', int), ('b', str), ('c', float))
    t = T('1', b=2, c='3')
    assert t == (1, '2', 3.0) and isinstance(t.c, float) and isinstance(t.b, str), t
    """)

bug('named-queue-empty-check', 'P15',
    'another thread taking the last item of a named queue between two steps of get_any()',
    'get_any() blocks forever instead of going on to the next queue, or raising Empty',
    [('satella/coding/structures/queues.py',
      '''            with silence_excs(queue.Empty):
                return queue_name, q.get(block=False)
''',
      '''            if not q.empty():
                return queue_name, q.get()
''')],
    """
    import queue, threading
    from satella.coding.structures import Subqueue
    class Contended(queue.Queue):
        def empty(self):
            answer = super().empty()
            self.queue.clear()          # another consumer has just taken these
            return answer
    s = Subqueue()
    s.put('a', 1)
    s.get('a')
    s.subqueues['a'] = Contended()
    s.put('a', 1)
    s.put('b', 2)
    got = []
    worker = threading.Thread(target=lambda: got.append(s.get_any()), daemon=True)
    worker.start()
    worker.join(5)
    assert got in ([('b', 2)], [('a', 1)]), got
    """)

bug('parallel-construct-false', 'P17',
    'a function used with parallel_construct() that returns a false value other than None',
    'false results are left out of the list as if they were None',
    [('satella/coding/concurrent/list_processor.py',
      "        if item is not None:\n            result.append(item)",
      "        if item:\n            result.append(item)")],
    """
    from concurrent.futures import ThreadPoolExecutor
    from satella.coding.concurrent import parallel_construct
    with ThreadPoolExecutor(2) as tp:
        assert parallel_construct([0, 1, None, 2], lambda x: x, tp) == [0, 1, 2]
    """)

bug('self-closing-left-by-exception', 'P13',
    'a block using a self-closing generator being left with an exception',
    'the generator is not brought to its end upon leaving the block',
    [('satella/coding/iterators.py',
      """    def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
        self.close()
        return False
""",
      """    def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
        if exc_type is None:
            self.close()
        return False
""")],
    """
    from satella.coding import SelfClosingGenerator
    seen = []
    def gen():
        yield 1
        yield 2
        seen.append('done')
    scg = SelfClosingGenerator(gen())
    try:
        with scg as g:
            next(g)
            raise ValueError()
    except ValueError:
        pass
    assert seen == ['done'], seen
    """)

bug('list-deleter-set-order', 'P14',
    'deleting elements of a list at indices that a set does not hold in ascending order (eg. 1 and 8)',
    'elements other than those marked are deleted',
    [('satella/coding/deleters.py',
      """            for index, element in enumerate(self.list_to_process[:]):
                if index in self.indices_to_delete:
                    self.list_to_process.pop(index - index_delta)
                    index_delta += 1
""",
      """            for index in self.indices_to_delete:
                self.list_to_process.pop(index - index_delta)
                index_delta += 1
""")],
    """
    from satella.coding import ListDeleter
    a = list(range(20))
    with ListDeleter(a) as ld:
        for v in ld:
            if v in (1, 8, 16):
                ld.delete()
    assert a == [i for i in range(20) if i not in (1, 8, 16)], a
    """)

bug('matrix-negative-row', 'P07',
    'a row deleted by a negative number, while its last cells are empty and rows before it hold something in the last columns',
    'cells of other rows are deleted as well',
    [('satella/coding/structures/sparse_matrix.py',
      """            for col_no in range(self.no_cols):
                del self[col_no, row]""",
      """            for col_no in range(self.no_cols):
                del self[col_no, key[1]]""")],
    """
    from satella.coding.structures import SparseMatrix
    sm = SparseMatrix()
    sm[0, 0] = 1
    sm[1, 0] = 2
    sm[2, 0] = 3
    sm[0, 1] = 4
    del sm[:, -1]
    assert [sm[i, 0] for i in range(3)] == [1, 2, 3]
    assert sm.no_rows == 1, sm.no_rows
    """)

bug('dict-deleter-second-pass', 'P14',
    'a dictionary walked through twice within a single block, with something marked in the first pass',
    'what was marked in the first pass stays',
    [('satella/coding/deleters.py',
      """        self.current_iterator = iter(self.dict_to_process.items())
        return self
""",
      """        self.current_iterator = iter(self.dict_to_process.items())
        self.keys_to_delete = set()
        return self
""")],
    """
    from satella.coding import DictDeleter
    d = {1: 'a', 2: 'b', 3: 'c'}
    with DictDeleter(d) as dd:
        for k, v in dd.items():
            if v == 'a':
                dd.delete()
        for k in dd.keys():
            if k == 3:
                dd.delete()
    assert d == {2: 'b'}, d
    """)

bug('queue-put-many-piecemeal', 'P15',
    'two threads putting many items at once, one of them in the middle of another',
    'items put together are not next to each other in the queue',
    [('satella/coding/concurrent/queue.py',
      """        with self.lock:
            for item in items:
                self.queue.append(item)
""",
      """        for item in items:
            with self.lock:
                self.queue.append(item)
""")],
    """
    import threading
    from satella.coding.concurrent import PeekableQueue
    q = PeekableQueue()
    reached, put = threading.Event(), threading.Event()

    def slow():
        yield 1
        reached.set()
        put.wait(1)
        yield 2

    def other():
        reached.wait()
        q.put(3)
        put.set()

    t = threading.Thread(target=other)
    t.start()
    q.put_many(slow())
    t.join()
    got = [q.get() for _ in range(3)]
    assert got in ([1, 2, 3], [3, 1, 2]), got
    """)

bug('syncable-failed-put-forgotten', 'P11',
    'the storage failing in the middle of moving old entries to it',
    'entries that were not stored are no longer in memory either',
    [('satella/coding/structures/syncable_droppable.py',
      """                for ts, value in self.data_in_memory[:index]:
                    self.db_storage.put(ts, value)
                del self.data_in_memory[:index]
                break""",
      """                old, self.data_in_memory = self.data_in_memory[:index], self.data_in_memory[index:]
                for ts, value in old:
                    self.db_storage.put(ts, value)
                break""")],
    """
    from satella.coding.structures import SyncableDroppable, DBStorage

    class Storage(DBStorage):
        broken = False

        def __init__(self):
            self.rows = {}

        def put(self, key, value):
            if self.broken:
                raise IOError()
            self.rows[key] = value

        def delete(self, key):
            del self.rows[key]

        def iterate(self, start):
            for k in sorted(self.rows):
                if start is None or k >= start:
                    yield k, self.rows[k]

        def on_change_start_entry(self, v):
            pass

        on_change_stop_entry = on_change_synced_up_to = on_change_start_entry

    storage = Storage()
    sd = SyncableDroppable(storage, None, None, None, 5, 100)
    for i in range(6):
        sd.on_new_data(i, str(i))
    storage.broken = True
    for i in range(6, 9):
        sd.on_new_data(i, str(i))
    try:
        sd.cleanup_keep_in_memory()
    except IOError:
        pass
    storage.broken = False
    got = [k for k, v in sd.get_archive(0, 5)]
    assert got == list(range(6)), got
    """)
