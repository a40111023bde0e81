"""The text of the properties (written out to properties.jsonl and MANIFEST.json by lib/genmeta.py)."""
CLAIMED = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    CLAIMED.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files.split(),
                    "mechanism": [{"name": a.strip(), "where": b.strip()} for a, b in mechanism],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "observe_at": list(observe), "hook_needed": None},
        "_technique": technique, "_note": " ".join(note.split())})


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, "", "")
    p = CLAIMED.pop()
    p["_reason"] = " ".join(reason.split())
    NOT_APPLICABLE.append(p)


TRUST = (" Trusted: clang 18's parser and control-flow graphs, this framework's extractor and rules, and the tables of "
         "exceptions in lib/ (each with its reason).")

prop("C01", "Process-wide registries stay consistent under concurrent use",
     """Any thread may at any time register in, remove from, list or look up the process-wide registries (factories,
     plugins and libraries, URI managers, codecs, SQL tables and functions, message splitters, MPI communicators,
     linear-algebra backends, resources): every such operation happens under the registry's one lock. Code outside
     the registry is never handed the guarded table itself, and a decision taken from a lookup is acted on in the same
     critical section.""",
     ["schedules"], "every interleaving of any number of threads registering, removing, listing and looking up",
     """a race needs a particular interleaving; the tests use the registries from one thread""",
     "src/eckit/memory/Factory.h src/eckit/system/LibraryManager.cc src/eckit/filesystem/URIManager.cc "
     "src/eckit/filesystem/PathNameFactory.h src/eckit/mpi/Comm.cc src/eckit/linalg/LinearAlgebra.cc "
     "src/eckit/config/ResourceMgr.cc src/eckit/spec/Generator.h src/eckit/utils/Compressor.cc src/eckit/utils/Hash.cc",
     [("a mutex per registry, taken by a scoped lock in every member function", "the files above")],
     "must-hold lockset dataflow, interprocedural, plus escape and check-then-act rules",
     """For each datum in the table of guarded registries, over all paths of all functions of the library: every access
     happens with one common lock certainly held. Object sensitivity is by access path; initialisation in constructors,
     call_once functions and static initialisers is exempt.""" + TRUST)

prop("C02", "In-memory caches and process-wide counters are only touched under their lock",
     """Caches kept in memory (geo records, geo search trees, the memory cache's own bookkeeping, node information,
     rotating output streams, name counters, connection caches) may be used from any number of threads: each read or
     change of one happens under that cache's one lock, and what is tested and then changed is tested and changed in the
     same critical section.""",
     ["schedules"], "every interleaving of threads using one cache",
     """a lost update or a torn read needs two threads in the same window; tests use the caches from one thread""",
     "src/eckit/geo/cache/MemoryCache.h src/eckit/geo/cache/RecordCache.h src/eckit/filesystem/LocalPathName.cc src/eckit/runtime/Monitor.cc "
     "src/eckit/log/RotationTarget.cc src/eckit/memory/MMap.cc src/eckit/memory/Shmget.cc src/eckit/net/HttpHeader.cc "
     "src/eckit/net/IPAddress.cc src/eckit/config/EtcTable.cc src/eckit/io/cluster/NodeInfo.cc",
     [("a mutex per cache and scoped locks", "the files above")],
     "must-hold lockset dataflow, interprocedural", "As C01, for the table of caches and counters." + TRUST)

prop("C03", "State shared between a worker thread and its user is only touched under its lock",
     """The queues, flags, counters, buffers and error texts that thread pools, pipes, dispatchers, asynchronous handles,
     producer/consumer pairs, circular buffers and file pools share with their worker threads are read and changed only
     under the lock that belongs to them.""",
     ["schedules"], "every interleaving of the user's threads and the worker threads",
     """only particular interleavings read a torn or stale value; a test run samples a handful""",
     "src/eckit/container/Queue.h src/eckit/thread/ThreadPool.cc src/eckit/thread/ThreadControler.cc src/eckit/thread/Thread.cc "
     "src/eckit/runtime/Pipe.h src/eckit/runtime/Dispatcher.h src/eckit/runtime/ProducerConsumer.h src/eckit/io/AsyncHandle.cc "
     "src/eckit/io/DblBuffer.cc src/eckit/io/CircularBuffer.cc src/eckit/io/FilePool.cc",
     [("MutexCond / Mutex members and scoped locks", "the files above")],
     "must-hold lockset dataflow, interprocedural", """As C01, for the table of state shared with worker threads; the
     class templates are analysed in instantiations of our own (tool/instances).""" + TRUST)

prop("C04", "A lock that is taken is released on every path",
     """Every lock taken inside the library (mutexes, read-write locks, semaphores, file locks) is released on every way
     out of the code that took it, error exits included, unless handing the lock to the caller is that function's job.
     A scoped lock lives to the end of its scope, and releases what it took.""",
     ["inputs", "fault_sequences"], "every path through every function that takes a lock, exceptions included",
     """the exceptional exits are rarely taken by tests, and a lost unlock shows only when the next thread blocks""",
     "src/eckit/thread/AutoLock.h src/eckit/thread/Mutex.cc src/eckit/thread/MutexCond.cc src/eckit/os/Semaphore.cc "
     "src/eckit/io/FileLock.cc src/eckit/container/BTree.cc src/eckit/transaction/TxnLog.cc",
     [("AutoLock/AutoSharedLock/scoped guards", "src/eckit/thread/AutoLock.h")],
     "typestate of locks over the control-flow graph with exceptional edges",
     """Every named and temporary guard object, every raw lock call and every lock/unlock method pair in the library is an
     obligation; a call that may throw counts as an exit.""" + TRUST)

prop("C05", "No wake-up is lost: waiting threads are woken and re-test what they wait for",
     """Whoever waits for a condition re-tests it, under the condition's lock, each time it is woken. Every change that can
     end such a wait is made under that lock and followed by a signal, and where waiters wait for different things, or the
     change is not consumed by the one woken, all of them are woken.""",
     ["schedules"], "every interleaving of waiters and signallers, spurious wake-ups included",
     """a lost wake-up is a hang in a window of a few instructions; tests pass whenever the window is missed""",
     "src/eckit/container/Queue.h src/eckit/thread/ThreadPool.cc src/eckit/thread/ThreadControler.cc src/eckit/runtime/Pipe.h "
     "src/eckit/runtime/Dispatcher.h src/eckit/runtime/ProducerConsumer.h src/eckit/io/AsyncHandle.cc src/eckit/io/FilePool.cc "
     "src/eckit/io/CircularBuffer.cc src/eckit/thread/MutexCond.cc",
     [("wait loops and signal()/broadcast() after each change", "the files above")],
     "wait/signal rules over the control-flow graph: re-test loops, change-then-signal post-dominance, locksets",
     """The tested state of every wait is computed from its loop condition; each write to that state which can make the
     condition true is an obligation.""" + TRUST)

prop("C06", "Locks are taken in one global order and never twice",
     """No two locks of the library are ever taken in both orders, however many calls lie between the two acquisitions, and
     a lock that is not recursive is never taken again by the thread holding it; so threads using different parts of the
     library at once cannot block each other for ever.""",
     ["schedules"], "every pair of threads in any two functions of the library",
     """a lock inversion deadlocks only when two threads meet in the window; tests run these paths alone""",
     "src/eckit/thread/AutoLock.h src/eckit/system/LibraryManager.cc src/eckit/system/Library.cc src/eckit/config/ResourceMgr.cc "
     "src/eckit/io/cluster/ClusterDisks.cc src/eckit/filesystem/FileSpace.cc src/eckit/filesystem/PathNameFactory.h",
     [("the order in which scoped locks nest", "lib/rules/lockorder.py computes it")],
     "lock-order graph over the call graph, cycle detection",
     """Locks are identified by class and field (or variable); virtual calls by class hierarchy, except through the abstract
     stream and data handle interfaces. Two entries are known findings.""" + TRUST)

prop("C07", "Each class and function of the library has exactly one definition",
     """Every externally visible class, enumeration and function of the library has one definition only, so that linking
     any of its parts into one program never silently replaces one class's behaviour by that of another of the same
     name.""",
     ["programs", "configurations"], "every program linking any set of the library's units",
     """two classes of one name in different units compile, link and pass until one program uses both""",
     "src/eckit src/eckit/runtime/Pipe.h src/eckit/runtime/ProducerConsumer.h",
     [("namespaces and unnamed namespaces", "all sources")],
     "whole-program comparison of definition sites", "All units of src/ are compared; the command-line tools, which are "
     "never linked together, are left out." + TRUST)

prop("C08", "A failed or incomplete system call is never taken for success",
     """Whenever a call to the operating system or to a C library reports failure, or moves fewer bytes than it was given, the
     library notices: the result is looked at on every path, in a way that tells failure from success, and failure has a
     consequence: an exception, an error result, another attempt. The same holds for short reads and writes of data
     handles and sockets inside the library.""",
     ["fault_sequences"], "every call site of some 100 C functions, under failure at that call",
     """the tests run where the disk is not full, the network is up and no call is interrupted; the failure branches are
     not executed""",
     "src/eckit/io/FileHandle.cc src/eckit/io/RawFileHandle.cc src/eckit/io/AIOHandle.cc src/eckit/io/PooledFileDescriptor.cc "
     "src/eckit/filesystem/LocalPathName.cc src/eckit/net/TCPSocket.cc src/eckit/serialisation/FileStream.cc src/eckit/os/Semaphore.cc "
     "src/eckit/container/BTree.cc src/eckit/memory/MMap.cc src/eckit/mpi/Parallel.cc",
     [("SYSCALL/THRCALL/ASSERT around calls", "src/eckit/exception/Exceptions.h")],
     "result-use dataflow and abstract evaluation of each call's failure and success values over the control-flow graph",
     """Every call of a function in the rule's table, in every function of the library, is an obligation; sites where the
     failure does not matter are listed in the rule with the reason.""" + TRUST)

prop("C09", "Process-wide state is constant, per thread, atomic or locked",
     """Functions of the library keep no state that threads calling them at the same time share unprotected: a static or
     global variable, and a field of an object with static storage, is constant once initialised, thread-local, atomic,
     or used under one lock; results of C functions in static storage (gmtime, getpwuid, gethostbyname, strtok ...) are
     not used. Start-up code, signal handling and the command shell are excepted.""",
     ["schedules"], "every schedule of any functions of the library called concurrently",
     """a race needs two threads in the same few instructions; the tests are almost all single-threaded""",
     "src/eckit/runtime/Metrics.cc src/eckit/types src/eckit/value/Value.cc src/eckit/mpi/Serial.cc src/eckit/net/IPAddress.cc "
     "src/eckit/filesystem src/eckit/thread/StaticMutex.cc src/eckit/system/LibraryManager.cc",
     [("ThreadSingleton, StaticMutex, pthread_once", "src/eckit/thread")],
     "inventory of all static-storage variables and of the fields of classes with static instances, with must-hold locksets",
     """The exceptions are tabled in lib/rules/statics.py with the reason of each.""" + TRUST)

prop("C10", "Byte counts, lengths and offsets are not cut to 32 bits",
     """No length, offset, position or count of bytes handled by the library's data handles, files, buffers, streams, codecs,
     sockets and containers loses its upper half on the way: wherever a 64-bit value becomes an int (a conversion, a
     parameter, a field, a loop counter), either the value is bounded by what it counts, or a value that does not fit is
     refused before the conversion.""",
     ["inputs"], "every length and offset up to 2^63, at every conversion",
     """the failing inputs have more than 2 GB; no test moves that much""",
     "src/eckit/io src/eckit/serialisation/Stream.cc src/eckit/utils/MD5.cc src/eckit/utils/LZ4Compressor.cc "
     "src/eckit/utils/BZip2Compressor.cc src/eckit/utils/Tokenizer.cc src/eckit/codec src/eckit/message src/eckit/container",
     [("long, off_t and size_t everywhere; ASSERT of the range where a C library takes int", "the files above")],
     "value-range analysis of every 64-to-32-bit conversion, with dominating range tests",
     """Scope: io, filesystem, net, serialisation, container, memory, utils, message, codec, transaction, distributed, os.
     Exceptions (ranks, ports, column widths, HTTP statuses) are tabled in lib/rules/narrowing.py.""" + TRUST)

prop("C11", "What one side writes to a stream the other side reads back, item by item",
     """For every class and type with a Stream encoding, the decoder consumes exactly what the encoder produced, in the same order
     and of the same types, whatever the data: no branch or loop of the encoder writes a sequence of items that the decoder
     would not read, each item goes back to the field it came from, and both halves of 64-bit items are joined as they were split.
     Every streamable class encodes under its own class name and can be revived from it by its reanimator.""",
     ["inputs", "histories"], "every value of every streamable type, every chain of base classes",
     """tests encode a handful of values of a few classes; a mismatch shows in the branch or the class that is not sampled""",
     "src/eckit/serialisation/Stream.cc src/eckit/serialisation/Streamable.cc src/eckit/io src/eckit/value src/eckit/filesystem/PathName.cc "
     "src/eckit/serialisation/Reanimator.h src/eckit/net src/eckit/config",
     [("encode(Stream&) const and the constructor from Stream&", "all Streamable classes"), ("operator<< and operator>> for Stream", "Stream.h")],
     "regular-language equality of the wire automata extracted from each encoder and its decoder",
     """Calls are inlined into automata over tags, words and byte runs; loops keep their shape; numbers of repetitions are not compared.
     Conversations with agents (requests and replies) are not pairs and are left out.""" + TRUST)

prop("C12", "A look-up that reports success has set its result, one that fails has not",
     """A function that returns whether it found, got or read something, with the result in an output argument, sets that output on
     every path that reports success and leaves the caller's value alone on every path that reports failure (configurations,
     parametrisations, caches, B-trees, tables, queues, exporters).""",
     ["inputs", "histories"], "every path of every bool function with an output",
     """tests check the value after success; the caller's default that a failed look-up has overwritten is looked at by nobody""",
     "src/eckit/config src/eckit/container src/eckit/geo src/eckit/io/cluster src/eckit/thread src/eckit/distributed src/eckit/log",
     [("bool get(name, value&)", "Parametrisation.h and its implementations")],
     "path-sensitive definite-assignment analysis of outputs, correlated with the returned value",
     """Outputs handed to a callee of the same kind take that callee's promise. Functions whose output is not a look-up's result are listed in
     lib/rules/outparam.py.""" + TRUST)

prop("C13", "Copying, moving, assigning, swapping and comparing treat the whole object",
     """A copy, move or assignment gives every field of an object (and of its bases) the value of that field of the other object, on
     every path; a swap exchanges every field. Objects that own memory, descriptors or mappings are never released twice nor leaked by
     it: a copy does not share what its destructor releases, the object moved from lets go of it, the one assigned to releases what it had.
     Two objects are equal only if all their fields are, each compared with its own counterpart; orders are strict weak orders; the
     comparison operators of a class agree with each other.""",
     ["inputs", "histories"], "every class with copy, move, assignment, swap or comparison functions; every pair of objects",
     """tests copy a few objects and look at a few fields; a field that is left behind shows only to a user of that field""",
     "src/eckit/linalg src/eckit/io/Buffer.cc src/eckit/types src/eckit/net src/eckit/sql src/eckit/codec src/eckit/geo src/eckit/filesystem/URI.h "
     "src/eckit/container/KDMapped.cc src/eckit/utils/Regex.cc src/eckit/io/cluster/ClusterNodes.cc",
     [("user-written copy, move, assignment, swap and comparison functions", "the files above")],
     "must-write and may-read field analysis of each function, calls inlined; abstract evaluation of comparisons over field orderings",
     """Fields that are no part of the value (statistics, caches, cursors) and classes compared by a key are tabled in lib/rules/copies.py.
     Comparisons that loop over elements are checked for the fields they read only.""" + TRUST)

prop("C14", "Nothing is read before it has been given a value",
     """Whatever constructor an object was made with, each of its flags, numbers and pointers has a value from the start, and no local
     flag, number or pointer is read on a path on which nothing has set it; where a function hands back its result through a
     reference and may decline to, its caller looks at whether it did before using the result.""",
     ["inputs", "histories"], "every constructor and scalar field; every local and path to its use",
     """memory that happens to be zero hides the fault in tests; whether it shows depends on what was in memory before""",
     "src/eckit src/tools",
     [("constructors and default member initialisers", "all classes of src/"), ("result outputs of Configuration/Metadata::get, Value conversions, Queue::pop", "src/eckit/config src/eckit/value")],
     "definite-assignment dataflow over constructors (calls and base constructors inlined) and path-sensitive over locals",
     """Class-type fields are left to their own constructors; arrays are not followed.""" + TRUST)

prop("C15", "What is opened is closed exactly once, whatever happens in between",
     """A file descriptor, socket, FILE stream, directory stream, process pipe, memory mapping or address list that a function acquires is
     released or handed on exactly once on every way out of it, exceptions and failed calls included. An object that holds one lets go of it
     once: after a release, even one that reports an error or throws, the field no longer names it; opening again does not lose the one still held;
     a constructor that throws does not leave one behind; a class that holds one releases it in its destructor (a few file handles, which their users close, excepted).""",
     ["inputs", "histories", "fault_sequences"], "every acquisition in src/, every path from it, every call on it that can fail or throw",
     """tests take the path on which nothing fails; a leak or a second close shows only after an error, an exception or a reopening, and then elsewhere""",
     "src/eckit/io src/eckit/net src/eckit/filesystem src/eckit/container src/eckit/memory src/eckit/serialisation src/eckit/os src/eckit/thread src/eckit/codec",
     [("close() and the destructors of handles, sockets, mapped arrays", "src/eckit/io src/eckit/net src/eckit/container"),
      ("fsync of directories", "LocalPathName::syncParentDirectory, FileStream::close")],
     "path-sensitive typestate analysis of each resource, methods summarised, exceptional exits included",
     """What can throw: eckit's own exceptions, assertions and system-call checks (fixpoint over the call graph); reporting to a log does not count,
     nor does running out of memory. Resources put into containers or other objects' fields are listed in the evidence and not followed.""" + TRUST)

prop("C16", "A look-up that found nothing is never used as if it had",
     """Where a look-up can come back with nothing (the end of a container or range, a null pointer from the environment, the system, a cast, a registry
     or one of the library's own functions, npos from a search in a string, an unset optional or owning pointer), every path on which it did is told apart before
     the result is dereferenced, erased, used as a position, or handed to a function that does so: the program reports or copes, it does not
     crash or read elsewhere. Likewise nothing is taken from the front, back or top of a container on a path that has not established that there is something in it.""",
     ["inputs", "histories"], "every key, name, environment, file content and container state; every such look-up and access in src/",
     """tests look up what is there; the missing key, unset variable, empty list or absent separator is a value nobody thought to try""",
     "src/eckit",
     [("factories, registries and caches", "find() in src/eckit/{memory,system,io,mpi,geo,codec,sql,config}"),
      ("queues and stacks", "src/eckit/{container,runtime,parser,log}")],
     "path-sensitive dataflow from each look-up with the outcome 'nothing' assumed; nullness summaries of functions",
     """Followed through local variables, results and arguments of functions; what is stored in a field is followed within the function only. Results of malloc
     and new are not look-ups. Containers reached through a call's result are listed in the evidence and not followed; some functions are excepted by name,
     with the reason.""" + TRUST)

prop("C17", "An error is passed on, and contained where it must be",
     """An exception that is caught has a consequence on every path through its handler: it is thrown on, recorded, returned as a failure, or told to the one
     who asked; it is not merely logged and forgotten, except where going on without what failed is that handler's documented job. What fails in a worker
     thread (pools, pipelines, asynchronous and double-buffered transfers, producers and consumers) is caught there, whatever it is, and set where the thread's user
     tests it. No exception leaves a function called by C code, a thread's entry point, or a function declared noexcept; all that is thrown is a std::exception and caught by reference.""",
     ["inputs", "fault_sequences", "schedules"], "every exception from every call; every handler, callback, worker and noexcept function in src/",
     """tests make few of the calls fail, and the handlers that matter run only when a disk, a network or a peer does""",
     "src/eckit",
     [("workers", "src/eckit/{thread,io,runtime}: ThreadPool.cc, AsyncHandle.cc, DblBuffer.cc, Pipeline.cc, Pipe.h, ProducerConsumer.h, ThreadControler.cc"),
      ("boundaries", "src/eckit/io/FOpenDataHandle.cc, EasyCURL.cc; src/eckit/thread/ThreadControler.cc")],
     "path analysis of every handler; may-throw fixpoint over the call graph for callbacks, workers and noexcept functions",
     """Destructors are excepted: a release that fails in one ends the program, as C++ has it, except where the destructor runs inside a callback. 40 handlers that
     only log are listed by file, with the reason; a new one is reported. Exceptions counted are those thrown by eckit's own code, assertions included.""" + TRUST)

prop("C18", "What is allocated is released exactly once",
     """Every object that eckit allocates has an owner at every moment: it is deleted on every path on which its maker does not return it, keep it or give it to
     an owner, exceptions included; a class that allocates into a field or a container releases it in its destructor and before it overwrites or removes it. Nothing
     is deleted twice, or used after it was deleted, or owned by two; it is released in the form in which it was allocated, through a type whose destructor is
     virtual if there are derived ones. Reference counts are balanced: each holder attaches once and detaches once, and a new object is attached before
     one that may hold it is let go.""",
     ["inputs", "fault_sequences", "histories"], "every allocation, deletion and reference count in src/, every path, and every point at which eckit's own code may throw",
     """a leak, or a second release of what was released long ago, fails no assertion in a short-lived test, and most of the paths need an error at one particular point""",
     "src/eckit",
     [("ownership", "src/eckit: geo/{Grid,Area,Projection,Figure}.cc, io/{MultiHandle,FOpenDataHandle,AsyncHandle}.cc, transaction/TxnLog.cc, container/{Trie,BSPTree}.h, net/MultiSocket.cc"),
      ("reference counts", "src/eckit/memory/Counted.h, value/Value.cc, log/{ChannelBuffer,TeeTarget,WrapperTarget}.cc, message/Message.cc, mpi/{Request,Status,Group}.cc, parser/YAMLParser.cc"),
      ("threads' objects", "src/eckit/runtime/{Pipe,Dispatcher,ProducerConsumer}.h, io/DblBuffer.cc, thread/ThreadControler.cc")],
     "ownership typestate over every path of every allocating function, with summaries of what callees do with the pointers they are given; count balance for attach/detach",
     """Exceptions counted are those thrown by eckit's own code, assertions included; running out of memory is not. Objects whose pointers are kept in structures built by
     hand (list and tree nodes linked through their own fields) are followed into the structure, not through it.""" + TRUST)

prop("C19", "What is stored or sent keeps its form",
     """What an eckit program of an earlier build stored or sends is understood by this one, and the other way round. Every record that is written or mapped as it lies in
     memory (codec record sections, the cache manager's B-tree pages, task, cluster-node and disk tables, KD-tree and FAM nodes) has the same fields at the same offsets
     with the same widths, and starts with the same contents; every tag, message number, mark, magic number and version has the same value; every class puts the same
     items in the same order into a Stream and is sent under the same name; and descriptions of codec records use the same keys and words.""",
     ["inputs", "histories"], "every record layout, number, mark and encoding function, for every value that can be stored or sent",
     """a test writes and reads with the same build: a change made on both sides of a format passes every round trip and breaks all data stored before it""",
     "src/eckit",
     [("records", "src/eckit: codec/detail/{RecordSections,Version,Time}.h, container/{BTree,MappedArray,SharedMemArray,KDMapped}.h, io/cluster/Cluster{Disks,Nodes}.cc, runtime/TaskInfo.h, io/fam/Fam{Node,ListNode}.h"),
      ("streams", "src/eckit/serialisation/Stream.cc and every encode()"),
      ("descriptions", "src/eckit/codec: types/**, RecordWriter.cc, detail/DataType.h")],
     "layouts as the compiler computes them, folded constants, and the automaton of items each encoding function puts into a stream, compared with those of the base revision",
     """The form is that of the base revision on this platform (lib/conf/formats.json); a deliberate change of format has to be made there as well. Text made for people
     (logs, dumps) is not included.""" + TRUST)

prop("C20", "A name selects the one implementation it has always selected",
     """Users choose implementations by name: compressors, hashes, linear-algebra backends, communicators, transports, search trees, SQL functions, and the geometry
     library's grids, areas, projections, figures and iterators. Each name that is built in is registered, with its own factory and for the class it has always been
     registered for; and no factory has one name registered for two classes.""",
     ["configurations", "inputs"], "every built-in registration, for every configuration that names one",
     """tests use a few of the nearly two hundred names; a name registered for the neighbour's class, or no longer registered, shows only in the job that asks for it""",
     "src/eckit",
     [("names", "src/eckit: utils/*Compressor.cc, utils/*Hash.cc, linalg/**, mpi/*.cc, sql/expression/function/FunctionFactory.cc and its functions, geo/{grid,area,projection,figure,iterator}/**")],
     "registrations collected from the initialisers of the program's variables and from constructions of builders, compared with those of the base revision",
     """Names registered by plugins or by users of the library are outside the source analysed.""" + TRUST)

prop("C21", "What processes share is touched only under the lock they share",
     """Tables that processes map together (tasks, cluster nodes and disks, transaction numbers), B-tree files, recycling files and the on-disk index and entries of a cache
     are read and changed only by a process that holds their lock at that moment: for writing, the lock that excludes everyone; the memory is sized, cleared, checked
     and built under it too; a missing cache entry is made only after having looked again under the lock. The lock itself waits, covers the whole, excludes, does not nest
     where one release gives it up, and is given back when its holder dies.""",
     ["schedules", "crash_points", "histories"], "every access to what is shared, in every function, for every interleaving of processes",
     """tests run one process; two that meet inside one update, or one that dies in it, corrupt what all the others use""",
     "src/eckit",
     [("tables", "src/eckit: io/cluster/Cluster{Nodes,Disks}.cc, runtime/Monitor.cc, transaction/TxnLog.cc, container/{MappedArray,SharedMemArray}.cc"),
      ("files", "src/eckit: container/{BTree.cc,Recycler.h,CacheManager.cc,CacheManager.h}, geo/Search.cc"),
      ("locks", "src/eckit: os/{Semaphore,SemLocker}.cc, io/{FileLock,FileLocker}.cc, container/{BTree,Recycler}.h")],
     "must-hold lock analysis with the object's own lock as the lock path; call closure from shared locks; constants of fcntl, flock and semop requests",
     """Showing other tasks' entries (the ps and kill commands, Monitor::statusTree) without the table's lock, and a task's use of its own entry, are excepted by name. The order in which
     the data reach the disk is not included.""" + TRUST)

prop("C22", "What is begun is ended, and what is changed for a while is put back",
     """Objects and lists begun in JSON or in a stream and indentation of a log are ended in the same call, properly nested and with a value for each key, on every path.
     What prints on a stream passed to it leaves that stream's base, precision, notation and fill as they were. Signal masks, signal handlers, alarms, umask and directory that a call
     changes for itself, and counts it raises before something that can fail, are put back on every way out, exceptions included. Objects that change something for a scope (umask, alarm,
     status, indentation, metrics prefix, session ...) save what they found, put exactly that back when destroyed, and last for the scope; what enters itself in a registry when made takes
     itself out when destroyed.""",
     ["inputs", "fault_sequences", "histories"], "every path through every function that begins, changes or registers something",
     """tests look at the result of the call that began something, not at the state it leaves behind on its error path""",
     "src/eckit",
     [("structured output", "src/eckit: log/JSON.h, serialisation/Stream.h and their users"), ("formats", "src/eckit: types/*.cc, log/{TimeStamp,BigNum,ETA}.cc, codec/print/Bytes.cc"),
      ("process state", "src/eckit: runtime/ProcessControler.cc, net/TCPSocket.cc, os/{AutoAlarm,AutoUmask,SignalHandler,Semaphore}"),
      ("scopes and registries", "src/eckit: runtime/{Metrics,Monitor}, log/{SavedStatus,Progress,Channel}, io/Pooled*.cc, filesystem/URIManager.cc, utils/{Compressor,Hash}Factory.cc")],
     "path-sensitive typestate with a stack of open items over the control-flow graph; must-call analysis of destructors; who constructs scope objects without a name",
     """Streams given to an object at its construction for its own use (SQLSimpleOutput, JSON::precision) and the alignment (left, right) are not included; nor builders that live until the program ends.""" + TRUST)

prop("C23", "What is handed over reaches its destination",
     """A handle, log target, query output or expression that stands for others hands on to it, or to each of them, what it is asked, with the arguments it was given, and returns what it got.
     What is held back in a buffer is written before the position moves, and before what it is written to is flushed, replaced or closed, and is written once; a stream buffer's sync()
     writes all that is pending and empties the buffer, and overflow() and the destructor call it. What is opened, rewound or moved sets everything that says where it is and in which mode;
     what reads, writes, skips or seeks moves the position. A buffer that grows keeps what it held.""",
     ["inputs", "histories"], "every path through the methods of every handle, log target, stream buffer and query output that buffers or stands for others",
     """tests write, close and read back; they do not seek with data pending, reopen, grow with half a line in the buffer or fail in between""",
     "src/eckit",
     [("data handles", "src/eckit/io: *Handle.cc, CircularBuffer.cc, BitIO.cc, *Buf.cc; distributed/TransportHandle.cc"), ("log", "src/eckit/log: *Target.cc, ChannelBuffer.cc"),
      ("SQL", "src/eckit/sql: SQL*Output.cc, expression/function/*.cc"), ("persistent structures", "src/eckit/container: BTree.cc, MappedArray.cc")],
     "must-call, must-precede and must-set analysis over the control-flow graph of each method, through helpers, with the branches on which there is nothing to do left out",
     """Which classes stand for others, and for what, is a table in the rule (lib/rules/buffers.py); how many bytes a position moves by is not decided.""" + TRUST)

prop("C24", "What is referred to is still there",
     """No reference, pointer, iterator or view into something is used after that something has ended or may have moved: no function returns or leaves behind a reference, pointer, iterator,
     view or by-reference closure that refers to one of its own variables or to a temporary; none that refers into a container is used after a call that may remove or move the
     container's elements, unless it was taken afresh; and no object is used after it was moved from, unless it was given a new value first.""",
     ["inputs", "histories"], "every function of the library that holds, returns or stores a reference, pointer, iterator or view, on every path",
     """what is gone is mostly still readable for a while, so that a test sees the right value; and a vector that does not have to grow keeps its elements where they were""",
     "src/eckit",
     [("all parts", "src/eckit")],
     "flow-sensitive borrow analysis: the places each reference, pointer, iterator or view may refer to are followed over the control-flow graph, with destructors of locals and temporaries, "
     "changes of containers and moves as what ends them, and with summaries of what each function returns a reference into and which containers it changes",
     """Pointers held in members across calls are not followed, nor are those that a virtual call with several overriders changes.""" + TRUST)

prop("C25", "What cannot be done is refused",
     """An operation that cannot be carried out in the state its object is in (not open, open the other way, not connected, already begun, ended or empty), with the
     arguments it was given (null, negative, out of range, sizes that do not match, a name or kind that is not known), or because something it relies on reported that it failed,
     ends by an exception on every path: it never comes to a normal end as if it had been done. Each accessible function of the library refuses all that it is known to refuse
     (conf/refusals.json: function, and the smallest assumptions on fields, arguments and answers under which it must not end normally).""",
     ["inputs", "histories", "fault_sequences"], "every accessible function that refuses something, each of its refusals, every path under the assumption, through what it calls",
     """tests call things as they are meant to be called; the closed handle, the wrong mode, the mismatched size and the failed call are each one of very many that no test sets up""",
     "src/eckit",
     [("all parts", "src/eckit")],
     "path enumeration over the control-flow graph with an abstract state of assumed values (fields, arguments, results of calls), interprocedural through non-virtual calls, that decides for each "
     "entry of the table of refusals that no normal end can be reached",
     """Refusals that depend on what happens in a loop, on virtual functions with several implementations, or on the contents of strings are not in the table. An entry whose question is no longer asked is dropped
     when the function refuses something new in its place (the question was put in another form), and is a violation otherwise.""" + TRUST)

# -- what is left to other techniques

VALUES = "it says what values an algorithm computes, for all inputs; a source analysis in reach decides that the computation is made, not that its result is right. "

na("N01", "JSON and YAML text is read back as the value that was written",
   """Any value that can be built from strings, numbers, booleans, nil, lists and maps, written as JSON and parsed again, gives an equal value; what is not JSON (or YAML of the supported subset)
   is refused with its position.""", ["inputs"], "all values and all texts",
   "tests parse a few documents; escapes, number formats and nesting are unbounded",
   "src/eckit/parser/JSONParser.cc src/eckit/parser/YAMLParser.cc src/eckit/parser/ObjectParser.cc src/eckit/log/JSON.cc src/eckit/value/Value.cc",
   [("recursive descent over a character stream", "src/eckit/parser/ObjectParser.cc")],
   VALUES + "What can be decided of it is in C22 (well-nested output), C16 (empty look-ups) and C25 (what is refused).")
na("N02", "Compression and decompression are inverse, and hashes are those of the data",
   """Whatever bytes are compressed with any of the available methods come back unchanged when decompressed; a digest depends on all the bytes and only on them, and is that of the algorithm named.""",
   ["inputs"], "all byte sequences, sizes and methods",
   "tests compress a few buffers",
   "src/eckit/utils/SnappyCompressor.cc src/eckit/utils/LZ4Compressor.cc src/eckit/utils/BZip2Compressor.cc src/eckit/utils/AECCompressor.cc src/eckit/utils/Hash.cc src/eckit/utils/MD5.cc",
   [("third-party codecs called with buffers and sizes", "src/eckit/utils")],
   VALUES + "The codecs are third-party binaries. Their failures are covered by C08 and C25, cut sizes by C10, names by C20.")
na("N03", "Date, time and fraction arithmetic is exact",
   """Conversions between calendar dates, Julian days and seconds are inverse over the whole supported range, differences and sums of dates, times and intervals agree, and fractions stay reduced, compare exactly
   and do not overflow silently.""", ["inputs"], "all dates, times, numerators and denominators",
   "tests check single dates and a few fractions",
   "src/eckit/types/Date.cc src/eckit/types/DateTime.cc src/eckit/types/Time.cc src/eckit/types/Fraction.cc",
   [("Julian day formulas; continued fractions", "src/eckit/types/Date.cc, src/eckit/types/Fraction.cc")],
   VALUES + "Bounding 64-bit products needs a relational, non-linear domain.")
na("N04", "Search trees find the true nearest points",
   """For every set of points and every query, a k-d tree or sphere search returns exactly the nearest points or all those within the radius, whether the tree is in memory, mapped or shared.""",
   ["inputs", "histories"], "all point sets, insert orders and queries",
   "tests compare on a few hundred random points",
   "src/eckit/container/KDTree.h src/eckit/container/sptree/SPTree.h src/eckit/container/kdtree/KDNode.h src/eckit/geo/search/TreeMemory.cc",
   [("bounding-box pruning", "src/eckit/container/kdtree/KDNode.cc")],
   VALUES + "Correct pruning is a geometric invariant over real numbers.")
na("N05", "Linear algebra backends agree with the definition of the operation",
   """Each dense and sparse backend computes dot products, matrix-vector and matrix-matrix products equal, within rounding, to the definition, for all shapes; transposing, pruning and row reduction of a sparse matrix keep
   the matrix they represent.""", ["inputs", "configurations"], "all shapes, sparsity patterns and backends",
   "tests use small matrices and the backends built here",
   "src/eckit/linalg/dense/LinearAlgebraGeneric.cc src/eckit/linalg/sparse/LinearAlgebraGeneric.cc src/eckit/linalg/SparseMatrix.cc",
   [("loops over compressed rows", "src/eckit/linalg/sparse/LinearAlgebraGeneric.cc")],
   VALUES + "Refusal of shapes that do not match is in C25; names of backends in C20.")
na("N06", "Projections invert, and grids contain the points they say",
   """Forward and inverse projections are inverse within tolerance on their domain; rotations preserve distance; a grid's size, points and iteration order agree, and are the same for a grid and the one
   made from its canonical specification.""", ["inputs", "configurations"], "all grids, projections and points",
   "tests check named grids and a few points",
   "src/eckit/geo/Grid.cc src/eckit/geo/projection/Rotation.cc src/eckit/geo/grid/reduced/HEALPix.cc src/eckit/geo/grid/reduced/ReducedGaussian.cc",
   [("spherical and ellipsoidal formulas", "src/eckit/geo/projection")],
   VALUES + "Floating-point identities over the sphere are out of reach of a static domain.")
na("N07", "Areas, ranges and polygons contain exactly their points",
   """Longitudes are normalised so that equal directions compare equal; bounding boxes, intersections, ranges and polygons contain a point if and only if it lies in them, at the date line and the poles as
   elsewhere.""", ["inputs"], "all boxes, polygons and points",
   "tests check chosen boxes",
   "src/eckit/geo/area/BoundingBox.cc src/eckit/geo/Range.cc src/eckit/geometry/polygon/LonLatPolygon.cc src/eckit/geo/PointLonLat.cc",
   [("normalisation and tolerant comparison", "src/eckit/geo/PointLonLat.cc")],
   VALUES)
na("N08", "Tokenizers, translators and regular expressions cut text as specified",
   """Joining the tokens of a text gives the text; translating a value to text and back gives the value; path normalisation, URI encoding and glob matching follow their grammar for every input.""",
   ["inputs"], "all strings", "tests check examples",
   "src/eckit/utils/Tokenizer.cc src/eckit/utils/Translator.cc src/eckit/utils/Regex.cc src/eckit/filesystem/URI.cc src/eckit/filesystem/LocalPathName.cc",
   [("character loops", "src/eckit/utils/Tokenizer.cc")],
   VALUES + "The strings are unbounded and the loops data-dependent.")
na("N09", "Copies and reads give the bytes that were stored, at every position",
   """Reading a multi-part, buffered, partial, peeked or cached handle gives, at every position and for every division into reads, the bytes of the underlying data; the length reported is the number of bytes read.""",
   ["inputs", "histories"], "all data, part lists, positions and read sizes", "tests read a few files in a few ways",
   "src/eckit/io/MultiHandle.cc src/eckit/io/PartFileHandle.cc src/eckit/io/BufferedHandle.cc src/eckit/io/PeekHandle.cc src/eckit/io/SeekableHandle.cc",
   [("positions, lengths and remainders kept in fields", "src/eckit/io/PartFileHandle.cc")],
   "It is arithmetic over positions, lengths and remainders for all histories of calls: relational loop invariants. The parts of it that have a shape (positions moved, buffers written before moving, errors and short transfers seen, widths) are C08, C10, C23.")
na("N10", "A B-tree finds what was stored, and stays sorted and balanced",
   """After any sequence of insertions, a B-tree file holds each key once with its last value, ranges are returned in order, and the pages are linked and balanced.""",
   ["histories", "crash_points"], "all sequences of insertions and page layouts", "tests insert a few thousand keys",
   "src/eckit/container/BTree.cc src/eckit/container/BTree.h",
   [("page splits", "src/eckit/container/BTree.cc")],
   "A shape and order invariant over pages in a file, with unbounded histories. Who may touch the pages, and their layout, are C21 and C19.")
na("N11", "SQL evaluation gives the rows and values its expressions denote",
   """A select returns exactly the rows for which the condition holds, with missing values treated as SQL does, in the order asked for, whatever optimisation is applied to the expression.""",
   ["inputs", "programs"], "all queries and tables", "tests run a few queries",
   "src/eckit/sql/SQLSelect.cc src/eckit/sql/expression/SQLExpressions.cc src/eckit/sql/expression/function/FunctionExpression.cc",
   [("expression trees, evaluated row by row", "src/eckit/sql/SQLSelect.cc")],
   VALUES + "Forwarding, resetting and copying of expressions and outputs are in C13 and C23.")
na("N12", "Collective communication gives every process the same answer",
   """In every communicator, reductions, gathers, scatters and broadcasts deliver what MPI defines, for all counts and displacements, and the serial communicator behaves like a communicator of one process.""",
   ["inputs", "schedules", "configurations"], "all communicators, counts and orders of arrival", "tests run on one to a few processes",
   "src/eckit/mpi/Parallel.cc src/eckit/mpi/Serial.cc src/eckit/mpi/Comm.h",
   [("thin wrappers around the MPI library", "src/eckit/mpi/Parallel.cc")],
   "The MPI library is a binary here, and matching of messages between processes is decided at run time. Results of its calls are covered by C08, refusals by C25.")
na("N13", "Time limits, order and fairness at run time",
   """A wait with a time limit ends when the limit has passed; tasks of a pool start in the order in which they were given; a queue serves its producers fairly.""",
   ["schedules"], "all schedules", "tests are timing dependent",
   "src/eckit/thread/ThreadPool.cc src/eckit/container/Queue.h src/eckit/runtime/ProducerConsumer.h",
   [("condition variables", "src/eckit/thread/MutexCond.cc")],
   "Liveness and timing under a fair scheduler are not decided by a static analysis of single paths; that no wake-up is missing is C05.")

TITLES = {p["id"]: p["title"] for p in CLAIMED}
