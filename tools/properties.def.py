PBT = 'stateful property-based testing (Hypothesis) against a reference model'
COMMON = '''Sampled, not exhaustive: seeded Hypothesis generation with shrinking; trusts the reference
model written in the check and CPython. '''

p('P01', 'Heaps always yield the least item and never lose or invent one',
  '''After any sequence of operations a heap's content is exactly the multiset (for set-like heaps: the set)
  of what was pushed and not removed, and popping always yields a least item. Time-based heaps release
  exactly the items whose timestamp is earlier than the given moment, in order of timestamps, and answer
  timestamp queries truthfully, also after being copied.''',
  ['histories', 'inputs'], 'every sequence of pushes, pops, filters, removals, time-based releases and copies over any items',
  'Unit tests run a dozen fixed sequences over distinct small integers; ties, unorderable items, removal followed by re-adding, and copies are not reached.',
  ['coding/structures/heaps/base.py', 'coding/structures/heaps/time.py'],
  [('heap invariant kept over a plain list', 'coding/structures/heaps/base.py Heap, SetHeap'),
   ('(timestamp, item) entries', 'coding/structures/heaps/time.py TimeBasedHeap, TimeBasedSetHeap')],
  PBT, COMMON + 'Items are small integers and unorderable tokens; histories up to 40 operations.')

p('P02', 'Sorted containers and rankings keep order and content',
  '''A sorted list contains exactly the items added and not removed, in the order of their keys, after any
  sequence of additions, removals and extensions. A ranking assigns positions consistently with that order
  at all times and a deque-like structure honours its bounds and order.''',
  ['histories', 'inputs'], 'every sequence of operations, over items with arbitrary ties between keys',
  'Unit tests use fixed short sequences without ties between keys.',
  ['coding/structures/sorted_list.py', 'coding/structures/ranking.py', 'coding/deep_compare.py'],
  [('binary-search insertion on parallel lists', 'coding/structures/sorted_list.py'),
   ('position recomputation', 'coding/structures/ranking.py')], PBT, COMMON)

p('P03', 'Dictionary-like structures behave as the dictionaries they stand for',
  '''Every dictionary-like structure answers each query as the mapping it documents itself to be: a two-way
  dictionary stays a bijection with both directions in step, a counter dictionary counts, dictionary views
  give precedence to earlier dictionaries and direct writes and deletes where documented, and object-like
  dictionaries keep attributes and items the same thing. This holds after any history of operations.''',
  ['histories', 'inputs', 'configurations'], 'every sequence of dictionary operations, for each configuration of the structure',
  'Unit tests cover each method once with one or two keys; interplay of deletes, overwrites and copies is never explored.',
  ['coding/structures/dictionaries/objects.py', 'coding/structures/dictionaries/dict_object.py',
   'coding/structures/dictionaries/counting.py'],
  [('reverse mapping', 'coding/structures/dictionaries/objects.py TwoWayDictionary'),
   ('chain lookup', 'coding/structures/dictionaries/objects.py DictionaryView')], PBT, COMMON)

p('P04', 'Expiring and self-cleaning dictionaries drop exactly what they should',
  '''An entry of an expiring dictionary is visible through every query exactly until its expiration moment and
  invisible afterwards, regardless of which operation observes it first. A self-cleaning dictionary keeps
  entries holding content and never reports entries which are back at their default. Both hold also when several threads, or the background cleanup thread, use the dictionary at once.''',
  ['histories', 'inputs', 'configurations', 'schedules'], 'every history of operations and passages of time, and every interleaving of threads operating and cleaning up',
  'Unit tests sleep through one or two expirations; the order of observation and interplay with overwriting and deleting is not sampled.',
  ['coding/structures/dictionaries/expiring.py', 'coding/structures/dictionaries/default.py'],
  [('expiration heap and key-to-deadline mapping', 'coding/structures/dictionaries/expiring.py'),
   ('cleanup of defaults', 'coding/structures/dictionaries/default.py')], PBT, COMMON + 'Time is a clock owned by the harness.')

p('P05', 'Caching dictionaries serve fresh, stale and missing entries as documented',
  '''A read of a caching dictionary blocks for a fresh value exactly when nothing unexpired is known, serves a stale
  value at once while scheduling one refresh, and otherwise does not call the value getter; failures are remembered
  only for the configured interval. Invalidated entries are forgotten completely, and a size-limited cache never
  exceeds its size and evicts only the least recently used entries, also when shared by threads.''',
  ['histories', 'configurations', 'schedules'], 'every history of reads, feeds, invalidations, source changes and passages of time, with refreshes completing at any moment and threads interleaved in any way',
  'Unit tests check a single stale and a single expired read under real sleeping; completion order of refreshes and cached failures combined with invalidations are not reached.',
  ['coding/structures/dictionaries/cache_dict.py', 'coding/structures/lru.py'],
  [('stale/expired decision', 'coding/structures/dictionaries/cache_dict.py CacheDict'),
   ('LRU order', 'coding/structures/lru.py')], PBT,
  COMMON + 'The executor and the clock are owned by the harness, so completion order is a generated choice.')

p('P06', 'A write-back cache never loses or resurrects a write',
  '''A read through an exclusive write-back cache returns the outcome of the most recent write or delete of that key made
  through the cache, whether or not it reached the storage, and what is cached is not read again. Once outstanding work
  is complete, or synchronization returns, the storage equals the outcome of all the writes and deletes in their order.''',
  ['histories', 'schedules', 'configurations'], 'every history of reads, writes and deletes, with write-backs delayed arbitrarily, reads overlapping writes, and threads interleaved in any way',
  'The unit tests write, sleep and read a couple of keys; delayed write-backs, reads racing writes and remembered misses are not sampled.',
  ['coding/structures/dictionaries/writeback_cache.py', 'coding/concurrent/sync.py'],
  [('in-cache set and pending executor jobs', 'coding/structures/dictionaries/writeback_cache.py')], PBT,
  COMMON + 'Executor owned by the harness, starting jobs in submission order (a multi-worker executor is a known finding).')

p('P07', 'A sparse matrix equals the grid of values written to it',
  '''After any sequence of writes, deletions, row insertions and removals, a sparse matrix holds exactly the cells that were
  defined and not removed, reads of other cells fail, and its size, rows, columns, extremes, iteration, equality, copies and
  shadow views all agree with that set of cells.''',
  ['histories', 'inputs'], 'every history of cell, row and column operations, with any index form',
  'Unit tests fill one small matrix once; deletions that empty rows, negative and elliptical indices and moves are not combined.',
  ['coding/structures/sparse_matrix.py'],
  [('rows kept as dictionaries of columns', 'coding/structures/sparse_matrix.py SparseMatrix')], PBT, COMMON + 'Coordinates 0-5.')

p('P08', 'A proxy behaves as the object it wraps in every operation',
  '''Every operator, comparison, conversion, item or attribute access, call, iteration and in-place operation made on a proxy gives
  what the same operation on the wrapped object would give, or fails when it would fail. When asked to wrap results, results
  that the proxy promises to wrap are proxies of the same value, and in-place operations leave the same proxy wrapping the new value.''',
  ['inputs', 'configurations'], 'every operation, over numbers, strings, lists, sets and dictionaries as operands on either side',
  'Unit tests try each operator once with one pair of integers.',
  ['coding/structures/proxy.py'], [('operator forwarding', 'coding/structures/proxy.py Proxy')],
  'differential property-based testing (Hypothesis) of a proxy against the bare object', COMMON)

p('P09', 'Immutability, equality, hashing and singletons keep their contracts',
  '''Frozen dictionaries and immutable objects never change after construction, whichever operation is attempted. Equality and
  ordering derived from fields agree with those fields, equal objects have equal hashes, and comparable enumerations compare by value.
  A singleton class yields one instance, or one per distinct arguments, unless its construction failed.''',
  ['inputs', 'histories', 'configurations'], 'every pair of objects, every mutating operation and every history of instantiations',
  'Unit tests compare a few fixed objects and try one mutation.',
  ['coding/structures/dictionaries/objects.py', 'coding/structures/immutable.py', 'coding/structures/mixins/eqable.py', 'coding/structures/mixins/hashable.py',
   'coding/structures/mixins/enums.py', 'coding/structures/singleton.py', 'coding/structures/mixins/strings.py'],
  [('derived comparison', 'coding/structures/mixins/eqable.py'), ('instance registry', 'coding/structures/singleton.py')], PBT, COMMON)

p('P10', 'Auxiliary containers neither lose, duplicate nor reorder their content',
  '''An iterable that may be pushed to yields every element exactly once in the documented order; a queue of named queues keeps each named
  queue first-in-first-out and accounts for every item; a zip of sets looks like all of its members taken together; vectors obey
  element-wise arithmetic. A typed named tuple converts each field with its own type, or refuses.''',
  ['histories', 'inputs'], 'every history of operations and every content',
  'Unit tests use a single fixed sequence per container.',
  ['coding/structures/push_iterable.py', 'coding/structures/queues.py', 'coding/structures/zip_dict.py', 'coding/structures/tuples.py', 'coding/structures/typednamedtuple.py'],
  [('left and right pending elements', 'coding/structures/push_iterable.py'), ('per-name queues', 'coding/structures/queues.py'),
   ('field conversion', 'coding/structures/typednamedtuple.py')], PBT, COMMON)

p('P11', 'A split time series never loses, repeats or reorders an entry',
  '''A series whose older part is kept in a database and newer part in memory always presents the same entries as an unsplit
  series would: for every range, for the archive and for what remains to be synchronized. An entry disappears only through cleaning up what
  has been synchronized and is old enough, also when threads add, clean up and read at once, and confirmation of synchronization covers exactly the reported entries.''',
  ['histories', 'configurations', 'schedules'], 'every history of additions, cleanups, database migrations, restarts, synchronization requests and confirmations, and every interleaving of a producer, a cleaner and a reader',
  'Unit tests walk one history with the split in one place.',
  ['coding/structures/syncable_droppable.py'], [('split point and synced-up-to mark', 'coding/structures/syncable_droppable.py SyncableDroppable')], PBT, COMMON)

p('P12', 'Sequence functions agree with their plain definitions for any iterable',
  '''Every function over sequences (slicing, grouping, pairing, deduplicating, searching, walking, splitting, averaging and mass operations) gives
  the result of its textbook definition, the same for a list, a generator or any other iterable, including empty and one-element ones.
  Lazy functions consume no more of the iterator than they need.''',
  ['inputs', 'configurations'], 'every sequence, kind of iterable and parameter',
  'Unit tests try one or two fixed lists per function and rarely generators, empty or short input.',
  ['coding/sequences/sequences.py', 'coding/sequences/iterators.py', 'coding/sequences/average.py', 'coding/sequences/choose.py', 'coding/iterators.py'],
  [('sequence functions', 'coding/sequences/sequences.py'), ('iterator classes', 'coding/sequences/iterators.py')],
  'property-based testing (Hypothesis) against list-based reference definitions', COMMON)

p('P13', 'Generator wrappers preserve the values, completion and failures',
  '''Wrapping a generator or an iterator delivers each of its elements exactly once in order, passes values sent in, and passes on exactly the
  failures raised inside. A self-closing generator always runs its finalization when abandoned, an action tied to completion runs exactly
  once and only upon completion, and a list-like view of an iterator answers as the full list would.''',
  ['inputs', 'histories'], 'every sequence of next, send, throw, close and indexing operations on every iterator',
  'Unit tests iterate each wrapper from start to end.',
  ['coding/generators.py', 'coding/sequences/iterators.py'],
  [('generator wrappers', 'coding/generators.py'), ('list-like iterator', 'coding/sequences/iterators.py ListWrapperIterator')], PBT, COMMON)

p('P14', 'Value transforms compute exactly what they document',
  '''Deleting while iterating removes exactly the marked elements after visiting each element once. Merging sorted lists or time series loses no key,
  combines exactly the equal keys and reports the latest known values at each moment. Interpolation, percentiles, clipping, padding, shuffling, stringification
  and conversion to JSON agree with their definitions and always yield a serializable value where they promise to.''',
  ['inputs', 'histories'], 'every list, dictionary, series and nested value',
  'Unit tests check one fixed example per transform.',
  ['coding/deleters.py', 'coding/transforms/__init__.py', 'coding/transforms/merge_list.py', 'coding/transforms/merger.py', 'coding/transforms/interpol.py',
   'coding/transforms/percentile.py', 'coding/transforms/jsonify.py', 'coding/transforms/words.py', 'coding/transforms/misc.py', 'coding/transforms/predicates.py', 'coding/transforms/base64.py'],
  [('merge heaps', 'coding/transforms/merger.py merge_series, coding/transforms/merge_list.py'), ('marking of indices', 'coding/deleters.py')],
  'property-based testing (Hypothesis) against reference definitions', COMMON)

SCHED = '''schedule-generating property-based testing (Hypothesis; cooperative scheduler owning threads, locks and time) against a sequential model'''
CONC = '''Sampled, not exhaustive: seeded Hypothesis generation of operations and of schedules (preemption at any statement and assignment of satella and at
every operation on a lock, queue or clock), with shrinking; trusts the scheduler and the sequential model of the check. Races needing preemption inside a single
expression of satella, or in C code, are not reached. '''

p('P15', 'Atomic values, queues and id allocators are linearizable and lose no wakeup',
  '''Every concurrent history upon an atomic number, a peekable queue, an id allocator, a sequential issuer, a deferred value, a monitored set or named queues equals some sequential
  execution of the same operations consistent with their real-time order. A waiter whose condition became true, or who was notified, or whose item was put, always wakes up,
  and one whose timeout passed raises the documented exception no sooner than that. Used by a single thread these objects behave as the plain values they stand for.''',
  ['schedules', 'histories', 'inputs'], 'every interleaving of up to three threads performing up to five operations each',
  'Unit tests start a few threads and let the operating system pick a single schedule; a lost update or a lost wakeup needs a particular preemption.',
  ['coding/concurrent/atomic.py', 'coding/concurrent/queue.py', 'coding/concurrent/id_allocator.py', 'coding/concurrent/value.py', 'coding/concurrent/functions.py',
   'coding/concurrent/monitor.py', 'coding/concurrent/thread.py', 'coding/structures/queues.py'],
  [('lock and condition of the number', 'coding/concurrent/atomic.py'), ('condition over the queue', 'coding/concurrent/queue.py'),
   ('monitor methods', 'coding/concurrent/id_allocator.py')], SCHED, CONC)

p('P16', 'Monitors and locked structures keep others out and always release',
  '''While one thread is inside a monitor, a synchronized method or function, a locked structure or a locked dataset, no other thread is, whatever way it came in by; reentrant ones admit their
  own thread again. Leaving by a return or an exception always releases the lock, a temporary release restores it, and
  acquisition with a timeout fails only after that time and leaves the lock as it was. Monitored lists and dictionaries hold what plain ones would.''',
  ['schedules', 'inputs', 'histories'], 'every interleaving of two or three threads entering by any combination of the provided ways, with exceptions raised inside',
  'Unit tests cannot observe an overlap that needs a particular preemption, and seldom raise inside of the section.',
  ['coding/concurrent/monitor.py', 'coding/concurrent/sync.py', 'coding/concurrent/locked_structure.py', 'coding/concurrent/locked_dataset.py'],
  [('monitor lock', 'coding/concurrent/monitor.py'), ('locked structure', 'coding/concurrent/locked_structure.py'),
   ('locked dataset', 'coding/concurrent/locked_dataset.py')], SCHED, CONC)

p('P17', 'Futures, collections of futures and parallel helpers deliver each outcome once',
  '''A future yields exactly one outcome (a value, an exception or a cancellation) to every one asking for it, and runs each completion callback and each chained action exactly once, whether
  they were added before, during or after completion. A collection of futures is complete exactly when all of its members are and yields their results in order.
  Functions executed in other threads, in parallel or over a pool return what a sequential execution would, and pass on its exceptions.''',
  ['schedules', 'histories', 'inputs'], 'every history of operations on a future, and every interleaving of completing, waiting, cancelling and adding callbacks',
  'Unit tests complete futures in one fixed order; callbacks added while the future completes, cancellations and collections in mixed states are not reached.',
  ['coding/concurrent/futures/futures.py', 'coding/concurrent/futures/collection.py', 'coding/concurrent/futures/wrapped_executor.py', 'coding/concurrent/futures/call_in_future.py',
   'coding/concurrent/thread.py', 'coding/concurrent/functions.py', 'coding/concurrent/sync.py'],
  [('future state and callbacks', 'coding/concurrent/futures/futures.py'), ('collections', 'coding/concurrent/futures/collection.py')], SCHED, CONC)

p('P18', 'Terminable threads, timers and callback groups act once, in order and on time',
  '''A terminable thread prepares once, iterates until it is told to terminate or fails in the declared manner, notices termination within its wake-up period and always cleans up exactly once;
  interval threads start their iterations at the declared pace and report every overrun. A timer not cancelled before its time executes exactly once, no sooner than due and at most
  about a second later, whatever other timers do. Groups of callbacks call exactly the registered and not cancelled ones in order, one-shot ones once, and keep the rest registered when one fails.''',
  ['schedules', 'histories', 'inputs'], 'every sequence of iteration lengths, failures, terminations and notifications, every set of timers, every history of a callback group',
  'Unit tests run in real time with generous sleeps, and check one iteration pattern.',
  ['coding/concurrent/thread.py', 'coding/concurrent/timer.py', 'coding/concurrent/callablegroup.py', 'coding/concurrent/thread_collection.py'],
  [('run loop', 'coding/concurrent/thread.py TerminableThread, IntervalTerminableThread'), ('background thread of timers', 'coding/concurrent/timer.py'),
   ('callback groups', 'coding/concurrent/callablegroup.py')],
  'property-based testing (Hypothesis) upon virtual time and scheduled threads against a timeline model', CONC)

p('P19', 'Exception wrappers touch exactly the declared exceptions',
  '''Each wrapper that translates, silences, swallows, expects or logs exceptions acts upon instances of the declared classes, the first matching entry deciding, and leaves every other exception,
  its identity and the normal result alone, both as a context manager and as a decorator, nested in any manner and used repeatedly, recursively or by several threads. Logging wrappers log each
  exception once with the requested formatting. Coded and custom exceptions match, compare and print by their codes and arguments.''',
  ['inputs', 'configurations'], 'every stack of wrappers, in every configuration, around a body raising any exception or none',
  'Unit tests check each wrapper alone with one exception class; overlapping classes, tuples, nesting, reuse and recursion are not reached.',
  ['coding/recast_exceptions.py', 'coding/expect_exception.py', 'exceptions.py', 'coding/decorators/decorators.py'],
  [('recasting', 'coding/recast_exceptions.py'), ('coded exceptions', 'exceptions.py')], 'property-based testing (Hypothesis) against a reference model', COMMON)

p('P20', 'Predicates and expressions evaluate as the Python they spell',
  '''A predicate built with any combination of operators, item and attribute access, calls and named tests gives for every argument the value, or the exception, which the same Python expression gives;
  composing predicates leaves their parts intact. Textual expressions do likewise. A structure built of predicates, nested in any manner, is reproduced with every predicate replaced by its value and everything else kept.''',
  ['inputs'], 'every expression of predicates up to a depth, every nested structure, upon arguments of all builtin types',
  'Unit tests try each operator once with a number.',
  ['coding/predicates.py', 'coding/misc.py', 'coding/decorators/decorators.py'],
  [('operators', 'coding/predicates.py PredicateClass'), ('structures', 'coding/predicates.py build_structure')],
  'property-based testing (Hypothesis): differential against plain evaluation of the same expression', COMMON)

p('P21', 'Decorators of arguments bind them as Python does',
  '''For any signature and any call, decorators that inspect, transform, replace, copy, attach or verify arguments pass to the function exactly the arguments Python would have bound, with just the declared changes
  made, defaults, positional-only, keyword-only and variable arguments included, and calls Python rejects are rejected. Failed pre- and postconditions raise PreconditionError and prevent the call.
  Decorated functions keep their name, documentation and signature.''',
  ['inputs', 'configurations'], 'every signature with up to seven parameters of all kinds, every way of calling it',
  'Unit tests use functions of one or two plain parameters; keyword-only, positional-only, variable and default arguments passed in mixed ways are not reached.',
  ['coding/decorators/arguments.py', 'coding/decorators/preconditions.py', 'coding/misc.py'],
  [('binding', 'coding/misc.py get_arguments, call_with_arguments'), ('decorators', 'coding/decorators/arguments.py')],
  'property-based testing (Hypothesis): generated signatures and calls, differential against Python\'s own binding', COMMON)

p('P22', 'Retrying, looping, chaining and memoizing make exactly the promised calls',
  '''A retried function is called until it succeeds or the attempts run out, with each callback called exactly when declared; looped ones run exactly while the predicate holds; chained ones pass
  results on as documented. A memoized function is executed at most once per arguments at a time and served from memory afterwards, also under concurrency, and a time-limited cache
  never serves a value older than its duration. Failures are never memoized.''',
  ['histories', 'schedules', 'configurations'], 'every script of results and failures of the function, every history of calls and passages of time, every interleaving of three calling threads',
  'Unit tests use one or two scripted calls by a single thread.',
  ['coding/decorators/retry_dec.py', 'coding/decorators/flow_control.py', 'coding/decorators/decorators.py', 'coding/misc.py', 'coding/ctxt_managers.py', 'coding/fun_static.py'],
  [('retrying', 'coding/decorators/retry_dec.py'), ('memoizers', 'coding/decorators/decorators.py')],
  'property-based testing (Hypothesis) of scripted functions and scheduled threads against a reference model', COMMON)

p('P23', 'Overloading and class decorators select, wrap and combine as declared',
  '''A call to an overloaded function executes the implementation whose declared types it fits, the most specific one deciding, and is rejected when none fits; methods of a class or an instance receive
  whichever they were called upon. A synthesized metaclass derives from metaclasses of all the bases and keeps their behaviour. Class decorators wrap exactly the selected members, keep the kind of each
  (static, class, property, abstract) and copy documentation just where there is none.''',
  ['inputs', 'configurations'], 'every set of overlapping signatures and every call, every tree of metaclasses, every class made of members of all kinds',
  'Unit tests overload a function on int and str, and wrap one class of two methods.',
  ['coding/overloading.py', 'coding/metaclasses.py', 'coding/misc.py'],
  [('signatures', 'coding/overloading.py'), ('wrapping of members', 'coding/metaclasses.py')],
  'property-based testing (Hypothesis): generated signatures and classes against a reference model', COMMON)

p('P24', 'Optionals, contexts, merging, comparison and updates keep their small promises',
  '''Operations on an empty Optional do nothing and stay empty, on a full one act as on its value; a closeable cleans up exactly once; contexts nest, a variable being seen from the innermost
  context which sets it until that one is left. Merging dictionaries and lists, deep comparison and conditional updates give what their definitions state for every nesting of values. None of these
  alters the arguments it should not.''',
  ['inputs', 'histories'], 'every history of operations on these objects, every pair of nested structures',
  'Unit tests use one value of one type for each of these helpers.',
  ['coding/optionals.py', 'coding/misc.py', 'coding/environment.py', 'coding/algos.py', 'coding/deep_compare.py', 'coding/iterators.py'],
  [('optionals', 'coding/optionals.py'), ('contexts', 'coding/environment.py'), ('comparison', 'coding/deep_compare.py')], PBT, COMMON)

p('P25', 'Pooled connections have one user at a time and are all torn down',
  '''A connection obtained from a pool is used by nobody else until released, is never one that has failed, been torn down or was taken the maximum number of times, and idle connections are used
  before new ones are made. No more than the declared number remain idle, and each connection ever made is torn down exactly once at the latest when the pool is closed and its users have released theirs;
  a closed pool gives no connections.''',
  ['schedules', 'histories', 'faults'], 'every interleaving of threads acquiring, failing and releasing connections while another one invalidates or closes the pool, with failures to connect',
  'The unit test takes and releases connections in a single thread.',
  ['coding/resources/cp_manager.py'], [('pool', 'coding/resources/cp_manager.py CPManager')], SCHED, CONC)

p('P26', 'A configuration schema accepts exactly what it describes and converts it',
  '''A schema, spelled with descriptors or as a JSON, accepts exactly the values which its types, structure, required keys and checkers allow, converts each as declared, fills in defaults of optional keys and
  hands unknown keys to the mapper; everything else is rejected with ConfigurationValidationError and nothing but it, and an invalid schema with ConfigurationSchemaError. Both spellings and is_valid_schema() agree.
  Neither the value nor the schema is altered.''',
  ['inputs', 'configurations'], 'every nested schema and every value, valid, nearly valid or of a wrong type',
  'Unit tests check one schema with valid values and a handful of invalid ones.',
  ['configuration/schema/base.py', 'configuration/schema/basic.py', 'configuration/schema/structs.py', 'configuration/schema/from_json.py', 'configuration/schema/registry.py',
   'coding/structures/dictionaries/dict_object.py'],
  [('descriptors', 'configuration/schema/base.py Descriptor'), ('JSON schemas', 'configuration/schema/from_json.py')],
  'property-based testing (Hypothesis): generated schemas and values against a reference validator', COMMON)
p('P27', 'Configuration sources give exactly what they hold, combined as declared',
  '''Each configuration source (environment, files, directories, JSON/YAML/TOML texts, HTTP) provides exactly the configuration it holds; alternatives, optionals and merges combine them as declared, recursively and with later ones
  winning, and a directory merges precisely the files it selects. Whatever cannot be read, decoded or parsed ends in a ConfigurationError and nothing else, which an optional or an alternative source covers.
  A source described with a dictionary behaves as that source.''',
  ['inputs', 'configurations', 'faults'], 'every tree of sources over every content, encoding, missing file and failed request',
  'Unit tests read one valid file of each format.',
  ['configuration/sources/base.py', 'configuration/sources/derivative.py', 'configuration/sources/envvars.py', 'configuration/sources/file.py', 'configuration/sources/format.py', 'configuration/sources/from_dict.py',
   'configuration/sources/object_from.py', 'coding/algos.py'],
  [('combining', 'configuration/sources/derivative.py'), ('files', 'configuration/sources/file.py'), ('definitions', 'configuration/sources/from_dict.py')],
  'property-based testing (Hypothesis): generated trees of sources against a reference evaluator', COMMON)
p('P28', 'Modules import in any order; import helpers bring in exactly what is exported',
  '''Every module of the library can be imported on its own and after any others, and has what its __all__ says. import_from() brings in exactly the names that modules and packages of the given package export, with the options
  given, whatever those are named, and completes __all__ with each of them once. import_class() gives the class named, or fails with ImportError.''',
  ['histories', 'configurations'], 'every order of imports and every tree of packages',
  'Unit tests import everything in one process in one order, and one package tree.',
  ['imports.py', '__init__.py', 'coding/__init__.py', 'configuration/__init__.py', 'instrumentation/__init__.py', 'coding/concurrent/__init__.py'],
  [('import_from', 'imports.py import_from'), ('cyclic imports', 'coding/__init__.py')],
  'property-based testing (Hypothesis): generated import orders in new interpreters, and generated packages against a reference model', COMMON)
p('P29', 'File helpers keep content intact, find exactly what was asked and touch no more',
  '''What is written to a file, with any encoding, is read back; files are rewritten only if they differ; searching yields exactly the files that conform, at any depth; deleting removes the path given and nothing besides it.
  split() undoes os.path.join(), names made are free ones, and the current directory is always restored. An AutoflushFile behaves as a file opened in its mode, that others see up to date after each operation.''',
  ['inputs', 'histories', 'faults'], 'every content, encoding, tree of files and history of operations on a file, also with others appending to it',
  'Unit tests read and write one short file each, and never use a nested pattern, an absolute path or a position within the file.',
  ['files.py', 'os/misc.py', 'coding/structures/proxy.py'],
  [('AutoflushFile', 'files.py AutoflushFile'), ('find_files', 'files.py find_files'), ('split', 'files.py split')],
  'property-based testing (Hypothesis): generated trees of files and histories in scratch directories against reference models', COMMON)
p('P30', 'A binary parser never yields bytes from outside of its window',
  '''A BinaryParser over any stream, offset and length, and any parser taken of its part, yields exactly the bytes and values at its pointer, advances by what was read, reports what remains, and raises NotEnoughBytes, leaving the
  pointer alone, instead of giving anything from beyond its window.''',
  ['inputs', 'histories'], 'every stream, window and sequence of reads of nested parsers',
  'Unit tests parse one stream of nine bytes.',
  ['parsing.py', 'exceptions.py'],
  [('bounds', 'parsing.py BinaryParser.assert_has_bytes'), ('windows', 'parsing.py BinaryParser.get_parser')],
  'property-based testing (Hypothesis): generated streams and histories of nested parsers against a model', COMMON)
p('P31', 'JSON encoding says what any value holds; files and data objects round-trip',
  '''json_encode() renders any value, with enums, objects, slots and objects with to_json() at any depth, as a JSON of what they hold. JSON files are read back as they were written, in UTF-8 whatever the locale, are rewritten only
  if needed, and an invalid one ends in ValueError. Data objects equal iff all of their fields (inherited included) do, hash accordingly and survive to_json() and from_json().''',
  ['inputs', 'configurations'], 'every nesting of values, every JSON, every class of data objects',
  'Unit tests encode six values and one class.',
  ['json.py', 'files.py'],
  [('JSONEncoder', 'json.py JSONEncoder.default'), ('JSONAbleDataObject', 'json.py JSONAbleDataObject')],
  'property-based testing (Hypothesis): generated values against a reference encoder', COMMON)
p('P32', 'Stopwatches, time strings, sleeping and backoffs keep time as documented',
  '''A measure() counts exactly the time it was running for, through any sequence of starts, stops, resets and blocks, and each decorated call has its own. Time strings are worth what they say; sleep() lasts the entire time in spite
  of interruptions. An ExponentialBackoff doubles up to its limit, and those waiting for it are let go as soon as it is available, or upon their timeout, and neither earlier nor later.''',
  ['histories', 'schedules', 'inputs'], 'every history of operations, every moment of interruption, every schedule of threads waiting upon a backoff',
  'Unit tests sleep for real and compare with wide tolerances; one thread waits once.',
  ['time/measure.py', 'time/backoff.py', 'time/parse.py', 'time/misc.py'],
  [('measure', 'time/measure.py measure'), ('backoff', 'time/backoff.py ExponentialBackoff')],
  SCHED, CONC)
p('P33', 'Metrics report exactly what they were given, for each set of labels',
  '''Every kind of metric reports, for each set of labels (its own included), what follows from the values given to it with these, with the timestamp of its last update and being internal if so declared, and totals of all of them;
  no value is lost when threads give them at once. measure() hands over exactly the time spent by each call, block, generator or future, never altering their outcome.''',
  ['histories', 'schedules', 'inputs'], 'every kind and configuration of a metric, every history of values, labels and time, every schedule of threads',
  'Unit tests put two or three values into each metric, one thread at a time, and never read timestamps or internal metrics with labels.',
  ['instrumentation/metrics/metric_types/__init__.py', 'instrumentation/metrics/metric_types/base.py', 'instrumentation/metrics/aggregate.py', 'instrumentation/metrics/labeled.py', 'instrumentation/metrics/metric_types/measurable_mixin.py'],
  [('labels', 'metric_types/base.py EmbeddedSubmetrics'), ('measure', 'metric_types/measurable_mixin.py'), ('kinds', 'metric_types/*.py')],
  SCHED, CONC)
p('P34', 'getMetric() keeps a single tree of metrics that obeys its levels',
  '''getMetric() always gives the same metric for a name, creating it along with its parents, or refuses without a trace; a metric accepts and its parents report exactly what the levels, inherited from the closest parent having one, allow.
  reset() removes all that is below and nothing else, and arguments of a metric concern no other one.''',
  ['histories', 'schedules'], 'every history of getting, setting levels of, using and resetting metrics, also from many threads',
  'Unit tests build trees of one or two metrics and never reset a part of one.',
  ['instrumentation/metrics/__init__.py', 'instrumentation/metrics/metric_types/base.py'],
  [('getMetric', 'metrics/__init__.py getMetric'), ('levels', 'metric_types/base.py Metric.level')],
  SCHED, CONC)
p('P35', 'Metric data survive combining, renaming, JSON and rendering for Prometheus',
  '''A MetricDataCollection is a mapping from names and labels to values through any sequence of additions, renamings, relabellings and round trips through JSON, with collections made from one another independent. What is rendered for
  Prometheus, also by its HTTP exporter, parses back to exactly the entries that are not internal, whatever their labels contain.''',
  ['inputs', 'histories'], 'every history of operations upon collections, every label',
  'Unit tests do a single operation at a time and render two entries.',
  ['instrumentation/metrics/data.py', 'instrumentation/metrics/exporters/prometheus.py'],
  [('collections', 'metrics/data.py MetricDataCollection'), ('rendering', 'exporters/prometheus.py')],
  'property-based testing (Hypothesis): generated histories against a model, and a strict parser of the Prometheus format as the inverse', COMMON)
p('P36', 'Metrified structures behave as their originals and count what they do',
  '''A metrified cache gives the same outcomes as a plain one, and counts each hit, miss, refresh and eviction once, along with the time refreshes took. A MetrifiedThreadPoolExecutor executes each task once, whatever happens to the
  others or to the pool itself, and measures each wait and execution; lengths of queues are reported as they are now.''',
  ['histories', 'inputs'], 'every history of operations upon a cache, every batch of tasks and every way of getting rid of a pool',
  'Unit tests do three lookups, and execute three tasks in a pool.',
  ['instrumentation/metrics/structures/cache_dict.py', 'instrumentation/metrics/structures/threadpool.py'],
  [('caches', 'structures/cache_dict.py'), ('pool', 'structures/threadpool.py')],
  'property-based testing (Hypothesis): generated histories, differential against the plain structures, and generated batches of tasks in real threads', COMMON)
p('P37', 'A stored Traceback tells what was there, and survives pickling and JSON',
  '''A Traceback (or a frame dump of all threads) holds every frame, in order, with exactly its locals and globals as they were when it was made, whatever the values: those that cannot be shown or pickled are said to be so, and never
  prevent it from being made. Pickle and JSON preserve all of it, whatever the policy of pickling and compressing values; a value that was pickled can be loaded back equal, and one that was not raises ValueError.''',
  ['inputs', 'histories'], 'every chain of calls, every kind of a value including ones that misbehave, every policy of storing them',
  'Unit tests store a single traceback with two integers in it.',
  ['instrumentation/trace_back/__init__.py'],
  [('values', 'instrumentation/trace_back.py StoredVariableValue'), ('frames', 'instrumentation/trace_back.py StackFrame, Traceback, frame_from_traceback')],
  'property-based testing (Hypothesis): generated values and call chains, round trips, and the values and frames generated as the oracle', COMMON)
p('P38', 'Each unhandled exception reaches handlers by priority, in each thread, once',
  '''With the exception hook installed, an unhandled exception in the main thread or in any other one is given to each handler once, in order of priorities, until one says that it has handled it; failing handlers harm nobody. The dumping
  handler writes texts and pickles of that exception (and of its frames) to each target, and the memory handler kills the process upon MemoryErrors only, unless its custom hook objects.''',
  ['inputs', 'histories', 'faults'], 'every set of handlers, their priorities, outcomes and failures, every kind of a thread and a target of a dump',
  'Unit tests raise one exception with one handler.',
  ['exception_handling/global_eh.py', 'exception_handling/exception_handlers.py', 'exception_handling/dump_to_file.py', 'exception_handling/memerrhandler.py'],
  [('hook', 'exception_handling/global_eh.py GlobalExcepthook'), ('dumps', 'exception_handling/dump_to_file.py DumpToFileHandler'), ('memory', 'exception_handling/memerrhandler.py')],
  'property-based testing (Hypothesis): generated sets of handlers and exceptions in child processes with a model of who is called; killing replaced by stand-ins', COMMON)
p('P39', 'Memory pressure is told as conditions say: entering, staying and leaving',
  '''A condition holds exactly if the memory of the process and of the machine is as it says, in all combinations of conditions. The severity level follows them, and each callback and cleanup is called once for each level entered or left on the way,
  those for remaining at a level no more often than asked, cancelled ones never; sizes of objects are sums of what they consist of, shared parts counted once.''',
  ['inputs', 'histories'], 'every tree of conditions, every history of memory usage and every set of callbacks; every structure measured',
  'Unit tests wait for a single severity with real memory.',
  ['instrumentation/memory/conditions.py', 'instrumentation/memory/memthread.py', 'instrumentation/memory/get_object_size.py'],
  [('conditions', 'memory/conditions.py'), ('severities', 'memory/memthread.py MemoryPressureManager'), ('sizes', 'memory/get_object_size.py')],
  'property-based testing (Hypothesis): generated histories of memory usage (told by a stand-in for psutil) against a model of severities', COMMON)
p('P40', 'CPU load told is the one that was there, and sleeping aware of it obeys it',
  '''The occupancy factor is the average load since it was last asked for, percentiles come from a recent window of the size asked for, and so does the CPU usage of the process itself. sleep_cpu_aware() sleeps as long as told unless the load
  goes beyond its bounds, which it tells; a CPU-aware interval thread runs its loop at its interval, sooner by up to max_sooner only if the load is below its percentile, reports overruns and ends promptly when terminated.''',
  ['histories', 'schedules', 'inputs'], 'every history of load, every sequence of questions, sleeps and settings, every duration of a loop',
  'Unit tests use the load that happens to be on the machine and real time.',
  ['instrumentation/cpu_time/collector.py', 'instrumentation/cpu_time/concurrency.py'],
  [('load', 'cpu_time/collector.py'), ('threads', 'cpu_time/concurrency.py CPUTimeAwareIntervalTerminableThread')],
  SCHED, CONC)
p('P41', 'PID locks exclude; daemons, signal waits, subprocesses do as documented',
  '''At most one living process holds a PIDFileLock, whatever was left in the file by those that died or lost a race, and those refused are told who holds it. hang_until_sig() ends upon the signals it is to end upon only, and puts handlers back;
  daemonize(), suicide() and whereis() do what they document, and the output of a called process arrives complete whatever its size, with its return code and timeout obeyed.''',
  ['histories', 'schedules', 'crash points', 'inputs'], 'every history of processes acquiring, releasing and dying, every schedule of acquisitions, every sequence of signals, every output',
  'Unit tests acquire a lock twice in one process, and call commands with a few bytes of output.',
  ['os/pidlock.py', 'os/signals.py', 'os/daemon.py', 'os/misc.py', 'processes.py'],
  [('PID lock', 'os/pidlock.py PIDFileLock'), ('signals', 'os/signals.py hang_until_sig'), ('subprocesses', 'processes.py call_and_return_stdout')],
  SCHED, CONC)

p('P42', 'Programs upon tainted values compute the same, and taint is never lost',
  '''Any operation upon a tainted value - operators, items, attributes, methods, calls, iteration, context managers, conversions - yields, or raises, what it would upon the plain one, and its result is tainted unless the language requires a plain type.
  Whatever is put into a tainted container or attribute, or comes out of it, is tainted; access_tainted() gives the plain value back; a value in a tainting session knows it, sessions of threads do not mix, and tainting again changes nothing.''',
  ['inputs', 'histories', 'schedules'], 'every program of operations upon numbers, texts, containers, objects and iterators, with any mix of tainted operands, every nesting of sessions in any number of threads',
  'Unit tests add tainted integers and index a tainted list, in a single session.',
  ['debug/tainting/tainteds.py', 'debug/tainting/environment.py'],
  [('tainted objects', 'debug/tainting/tainteds.py TaintedObject'), ('sessions', 'debug/tainting/environment.py TaintingEnvironment')],
  PBT, COMMON)

p('P43', 'Transactions, lazy loads, spans and Cassandra futures have one proper outcome',
  '''A transaction commits exactly when its body succeeded, and rolls back otherwise, closing its cursor (and its connection if asked to) whatever fails; a lazily loaded object is loaded before the first method that needs it, and once. Traced functions
  and futures have a span per call with its own tags, finished once, with the exception that happened; Cassandra futures report exactly what the driver has, and parallel queries are all sent before awaiting the first. Shuffling keeps sequences in step.''',
  ['histories', 'crash points', 'inputs'], 'every history of transactions with any call of the driver failing, every history of loads and calls, every tree of traced calls, every outcome of futures, every set of sequences',
  'Unit tests use mocks for one commit and one rollback, and trace a single call.',
  ['db.py', 'dao.py', 'opentracing/trace.py', 'opentracing/exceptions.py', 'cassandra/future.py', 'cassandra/parallel.py', 'random.py'],
  [('transactions', 'db.py transaction'), ('tracing', 'opentracing/trace.py'), ('Cassandra', 'cassandra/future.py wrap_future')],
  PBT, COMMON)
