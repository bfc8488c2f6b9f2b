d('P01', '''random histories of all the operations on each kind of heap, over small integers (ties are common), tuples and unorderable tokens;
the model is a sorted list (a set for set-like heaps) of (timestamp, item). After each operation the content, the length, membership and the least item are compared; popping to the end
must yield the sorted model. Bound: 40 operations a history. Cost: about a second per thousand histories.''')
d('P02', '''histories over a key with many collisions, compared with a list kept by a stable definition; every query (membership, index, slices, extend, pop, removal of an absent element) after each
operation. For rankings the position of each element is recomputed from scratch. Deques are compared with list slices.''')
d('P03', '''histories of the whole mutable mapping interface, bulk operations included, run both on the structure and on a model dict; the result or the kind of exception of each is compared, then the invariant
(dirty flag iff altered, two-way inverse, first layer wins, attributes are items).''')
d('P04', '''histories of reads, writes, deletions and iterations interleaved with advances of an injected clock, so that an operation lands before, at and after every deadline; the model maps key to (value, deadline).
Threads sharing a dictionary under generated schedules must yield linearizable histories, the passage of time being an operation too (an iteration which fails because an entry expires in the middle of it is left open); the background
thread is run upon virtual time in a forked process, with dictionaries that are forgotten or held meanwhile. `self_cleaning_defaults`: the same for a SelfCleaningDefaultDict.''')
d('P05', '''histories with an injected clock, an executor owned by the harness (a generated choice decides when each background refresh runs) and a source that changes, loses keys and fails.
The model states which values may be served at each moment and which must not, and counts the calls to the source.
Threads sharing a cache under generated schedules: each value served must have been true at a moment within the expiration interval, and a miss be justified by an absence. `pairs`: two operations, each interrupted at up to 20 of its steps by the other one (which may be left in the middle too), must come out as in one of the two orders, save for loading, which takes time.''')
d('P06', '''a recording store and an executor run by the harness; after each history all the pending jobs are run, the store must equal the last writes in every interleaving for a single worker,
and reads must see the latest write at each moment. Histories of threads are checked for linearizability, and the storage against the last reads.
The known finding concerns two jobs of the same key executed by different workers. `pairs`: each of two operations is interrupted at up to 20 of its steps by the other one, and their outcomes, as well as what the cache and the storage hold later, must be those of one of the two orders.''')
d('P07', '''every public operation of the matrix against a dict of coordinates, with shapes recomputed; overwritten, deleted and missing cells; shoving rows; iteration order.''')
d('P08', '''each operator is executed upon the proxy and upon the proxied object, over ints, floats, strings, lists, sets, dictionaries and bytes on either side; value, type and kind of exception must agree, in-place ones must
keep the identity where the documentation says so.''')
d('P09', '''pairs of objects differing in at most a few fields; the oracle is the plain comparison of their fields; hash must be consistent with equality; alteration must raise and leave the object as it was.''')
d('P10', '''histories against lists and counters; elements pushed while being iterated; each queue of a subqueue modelled separately.''')
d('P11', '''histories of arrivals, synchronization failures, requests, drops and ranges against a single list of (timestamp, value): what is read must be a superset-free slice of it, what is deleted must be
exactly what retention allows, each element is delivered once. Database and synchronization targets are recording stand-ins.
A further facet runs a producer, a cleaner and a reader as threads under generated schedules: what a reader gets must be ordered, free of repetitions and include everything which was there throughout the reading.''')
d('P12', '''each function over a generated sequence given as a list, a tuple, a generator and a one-shot iterator, against a two-line list definition; counting iterators measure how far lazy functions read.''')
d('P13', '''histories of next, send, throw, close and list-like operations on a wrapper of a scripted iterator; the model is the script; finalization is counted.''')
d('P14', '''each transform against its quadratic definition; output of jsonify must go through json.dumps; series are compared at each timestamp.''')
d('P15', '''threads run under `lib/sched.py`; each operation is recorded with its invocation and response, and the history is searched for a linearization against a sequential model. Waiting threads that remain asleep when
nobody can run are a deadlock, which is a violation (a lost wakeup). A single-threaded facet compares the atomic number with a plain one through all of its operators. `pairs`: for each kind of object, each of two operations is interrupted at up to 30 of its steps by the other one, and must come out as in one of the two orders.''')
d('P16', '''threads enter by generated combinations of the provided ways (context manager, synchronized, synchronize_on, on attribute, release, nested) under generated schedules, with exceptions raised in the
section; a guard counts who is inside. Timeouts are judged upon virtual time. Contents of monitored containers are compared with plain ones, copies included.''')
d('P17', '''histories on futures, chained and wrapped ones, against a small state machine giving the outcome and the exact multiset and order of callback calls; threaded ones under generated schedules; parallel helpers
compared with a sequential execution; executors owned by the harness.''')
d('P18', '''virtual time makes the timeline of a thread a function of its iterations, so start, overrun, cleanup and join moments are computed by a ten-line simulation and compared exactly; timers are checked for the window
[due, due + 1 s]; callback groups against an ordered list.''')
d('P19', '''random stacks of wrappers (each applied as a decorator or a context manager) around a body raising one of six related classes; a model pushes the outcome through the layers one by one and predicts the value
or exception (by identity where it must be unchanged), log records and method calls. Separate facets recurse, reuse wrappers and compare coded exceptions.''')
d('P20', '''an expression tree is built twice: by operators upon `x` and by an evaluator of the same tree; results (type, value, or type of the exception) are compared on several arguments, then all of the parts are re-evaluated to
see whether composition left them intact. Structures: nested lists, tuples, dictionaries and wrappers. Textual expressions against `eval`.''')
d('P21', '''signatures are generated and compiled to functions returning their own locals; binding is modelled by hand (a 30-line reimplementation of the rules of Python), so that expected locals are known before any decorator
is applied; every decorator must yield them with just the declared changes, and keep name, documentation and signature. `identity`: a decorated function tells its own name, documentation, module, annotations and signature, however many times it is decorated.''')
d('P22', '''functions follow generated scripts of results and exceptions and log their calls; the expected log is computed by the model. Memoizers run under generated schedules with points inside of the function: executions must not overlap
nor repeat; cached values carry the moment of their computation upon virtual time.''')
d('P23', '''overlapping signatures over a small lattice of classes (diamond included) and calls chosen to fit at least one of them; specificity is modelled by comparing parameters pairwise. Trees of metaclasses recording their calls.
Classes are generated of members of each kind, and the kind, identity and number of wrappings of each member is compared. Documentation is looked up in a breadth-first model.''')
d('P24', '''each helper against a definition of a few lines; arguments are deep-copied beforehand and compared afterwards. Contexts are a stack of dictionaries.''')
d('P25', '''connections which know who holds them, how many times they were taken, and whether they were torn down, check each handover by themselves; creation and teardown contain scheduling points and
injected failures. A single-user facet predicts each handover and teardown, with new connections reusing identities of dead ones.''')
d('P26', '''schemas are generated as trees and given to the library both as descriptors and as JSON; values are generated from the schema (valid, or with a deliberate flaw in a random place), or at random. The validator in the check is 60
lines; outcome, converted value and its types are compared, with the exception class in case of rejection. File descriptors work upon a scratch directory.''')
d('P27', '''trees of sources are generated over an environment, a scratch directory and stubbed HTTP responses, both as objects and (where it is possible) as dictionaries, and compared with a reference evaluator (in the
check) as to the value or ConfigurationError. Contents include garbage, wrong encodings, missing and unreadable files and non-dictionaries. Parsers of JSON, YAML and TOML are trusted: the oracle calls them as well.''')
d('P28', '''`orders` and `every` start new interpreters, since a failure to import depends only upon what was imported earlier. `importing` writes packages in a scratch directory (with names shadowing top-level ones, private modules,
modules without `__all__` or with names missing), imports them in a child process and compares the names, values, `__all__`s and nesting with a model.''')
d('P29', '''every facet works in a scratch directory that it makes: contents, trees of files and histories of operations are generated, with the whole directory compared with a model after each of them (including modification times,
where nothing was to be written). For AutoflushFile the file is also read by others and appended to by them between operations, and descriptors left open are looked for. Deleting is checked against everything in and
next to the directory, links leading out of it included.''')
d('P30', '''nested parsers share a stream and are used in turns; a model keeps the window and the pointer of each, and all of them are audited (pointer, what remains, bytes, length) after each operation. Values are compared with struct.''')
d('P31', '''values are generated along with what they should be parsed to (an odd object, that has nothing to show, may become any text). Locales are tried in new interpreters. Classes of data objects are generated with inheritance.
Keys of dictionaries other than those that JSON allows are not claimed.''')
d('P32', '''measure() is compared with a model stopwatch over a clock of ours. In `sleeping` time.sleep is replaced by one that is interrupted or wakes up early, just before the deadline included. In `waiting` threads wait for a backoff
which another one reports failures and successes to; from the log we compute periods when the service was surely (un)available and nobody may wait through or return within those.''')
d('P33', '''a model of each kind of metric (2 to 20 lines each, within the check) holds all values along with their times, labels and configuration; entire sets of entries (names, labels, values, timestamps, being internal) are compared at
random moments, through the metric, through the root and for a single set of labels. `measuring` covers every form of measure() with every ending, a custom metric being the recorder. `threads` runs under the scheduler, also with
switches between the computation of a value and storing it. Mixing calls with labels and calls without them upon one metric is not claimed, as it is undocumented. `pairs`: each of two operations (putting a value, reading, resetting) is interrupted at up to 30 of its steps by the other one; all is then reported as in one of the two orders, also after more values are put.''')
d('P34', '''a model tree with own levels, inherited ones and values; after each operation every metric's level, name and data are audited. Metrics dropped by a reset are used afterwards, in order to show that they are not reported any more.
What a DISABLED metric reports is not documented, and such entries may be there or not. `pairs`: the same with getting metrics, putting values and reading; the tree and the levels must be those of one of the two orders.''')
d('P35', '''three collections at a time, with entries of one entering another; all three are compared with their models after each operation, as are all equalities. The rendering is parsed by a strict parser in the check (written from
Prometheus' documentation). `exporter` makes HTTP requests upon the loopback.''')
d('P36', '''the metrified and the plain structure live in two worlds with their own clocks, sources and executors, and get the same operations. Pools run real threads: batches with failing tasks, failing initializers, pools collected,
shut down or used as context managers; every future must be done, and each task executed and measured once.''')
d('P37', '''chains of functions are generated with locals from a vocabulary that includes objects failing to be repr()-ed or pickled in various ways (raising BaseException-s excepted); each frame of the result is compared with the frame it
came from. Policies of storing are generated too, custom ones included.''')
d('P38', '''histories of installing and removing generated handlers (classes, functions, decorated ones) with exceptions raised in the main thread or threads of several kinds; who was called is compared with a model. Dumps are made in a scratch
directory, into paths, directories, streams and loggers, and read back. os.kill and the like are stand-ins which only record. The order of handlers of equal priority is not claimed.''')
d('P39', '''psutil is replaced by a stand-in telling a generated history of memory usage; time is virtual. Each callback logs its calls, compared with a model evaluated at each tick. Sizes are claimed for builtin containers and plain objects. `memory_dumps`: dumps made of given objects are compared with lines computed independently.''')
d('P40', '''psutil tells a generated history of load in virtual time; what is told is bounded by the loads which were there in the period concerned. `windows` uses a load rising with time, so that a value tells when it was taken.
A race between two threads asking at once for the occupancy factor is not claimed (the factor is a global by design).''')
d('P41', '''locks are exercised by real child processes that acquire, release, exit and are killed, and under the scheduler by threads (flock made a scheduling point). Daemons and signals are real, in children of the check; suicide() runs with
stand-ins. Outputs go up to several times what a pipe holds, also with characters split between reads and with a reader that is slow.''')
d('P42', '''a program of operations is run twice: upon plain values and upon values of which some are tainted. Results, exceptions and states of all containers are compared after each step, and each result that the language lets be tainted is
checked to be. Sessions are nested and run in threads under the scheduler; identity of sessions is compared with a model (a stack per thread).''')
d('P43', '''a fake driver records calls and fails where told to (each of connect, cursor, commit, rollback, close), and sqlite3 in memory is compared with a model of committed rows. Spans are of a fake tracer that tells about anything finished
twice, never, or out of order. Cassandra's futures are fakes with the driver's interface, as the driver is not installed.''')
