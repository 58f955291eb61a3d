#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate that file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A save interrupted by a crash loses nothing",
 "Once a save of a checksummed value through the atomic storage has completed, stopping the process or losing power at any instant of a later save leaves files from which a fresh open-and-load succeeds and yields exactly the value of the last completed save or exactly the value of the interrupted one. A load that repairs the master file from the backup can itself be interrupted anywhere and repeated with the same guarantee.",
 ["crash_points", "histories"], "every sequence of open/load/save/close operations, every system call of them as the crash point, every prefix of the bytes of the interrupted write, and any loss of data not yet synced",
 "The tests corrupt files by hand after complete saves; none stops a save between two system calls or drops unsynced data.",
 ["Awl/Io/AtomicStorage.h", "Awl/Io/AtomicStorage.cpp", "Awl/Io/PersistentObject.h", "Awl/Io/HashStream.h", "Awl/Io/HashingSerializable.h", "Platforms/Posix/Awl/Io/NativeStream.h"],
 [("backup is written and flushed before the master is touched, and cleared only after the master is flushed", "AtomicStorage::Save"), ("backup is tried first and copied over the master", "AtomicStorage::Load")],
 [("m_s", "master file", "AtomicStorage"), ("m_backup", "backup file, non-empty only while a save is in progress", "AtomicStorage")],
 ["system calls on the two files", "AtomicStorage::Load result"])

prop("C02", "An I/O failure during open, load or save is contained",
 "When a file operation fails during a save, the throwing storage reports it with an I/O exception and the optional storage returns normally after logging a warning; neither terminates the program or changes the value in memory, and a later load yields the previously saved value or the one whose save failed. When the operations work again, the next save completes and its value is what is loaded.",
 ["fault_sequences", "histories"], "every file operation of a save, open or load failing (including short writes), for every later history of saves and loads",
 "The tests never make a system call fail.",
 ["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp", "Awl/Io/HashStream.h", "Platforms/Posix"],
 [("IoException thrown by the native stream", "Platforms/Posix"), ("exceptions caught and logged", "OptionalStorage::Save"), ("last block written when the hashing stream is finished", "HashOutputStream")],
 observe=["exceptions", "log", "loaded value"])

prop("C03", "A load is all-or-nothing and rejects damaged or foreign files",
 "Loading a checksummed, headered value either succeeds with exactly a value that was written or fails (exception or false) leaving the caller's object unchanged. A file that was truncated, has any byte changed, has a wrong format name or a newer version number is rejected; an older version number is passed to the old-version handler.",
 ["inputs"], "every position and kind of damage (byte change, truncation, wrong header) of master and backup, every value size around the block boundary",
 "The tests damage one or two fixed positions.",
 ["Awl/Io/HeaderedSerializable.h", "Awl/Io/HashingSerializable.h", "Awl/Io/EuphoricallySerializable.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Io/AtomicStorage.cpp"],
 [("hash of every block verified before its data is handed out", "HashInputStream::PeekBuf"), ("value read into a temporary and then moved", "VersionTolerantSerializable::Read"), ("format and version checked before the value is read", "HeaderedSerializable::ReadHeader")],
 observe=["Load result", "object value"])

prop("C04", "A save with a mutex writes one consistent snapshot",
 "A save that is given the value's mutex stores the value as it was at one instant at which no other holder of the mutex was in the middle of changing it, and does not hold the mutex while it touches the files. The changes that other threads make under the mutex can be interleaved with saves in any way without a torn value being stored.",
 ["schedules"], "every interleaving of a saving thread with threads that change several fields under the mutex",
 "One test runs two threads under the operating system's scheduler.",
 ["Awl/Io/AtomicStorage.cpp", "Awl/Io/EuphoricallySerializable.h", "Awl/OptionalMutex.h"],
 [("MakeShanshot under the lock, WriteSnapshot after unlock", "AtomicStorage::Save")],
 observe=["mutex lock/unlock", "file system calls", "loaded value"])

prop("C05", "Hashing and buffering streams are transparent and detect damage",
 "Bytes written through a hashing or buffering output stream in any chunks and read back through the matching input stream in any chunks are the same bytes, followed by end-of-stream. After any byte of a stored hashed block is changed or the stored bytes are truncated inside a hashed block, the reader throws a corruption error instead of handing out data of the damaged block, and everything it handed out before is a prefix of what was written; after the error it hands out nothing more.",
 ["inputs", "histories"], "every sequence of write and read sizes, block sizes and positions of damage",
 "The tests use a few chunk sizes and one kind of damage.",
 ["Awl/Io/HashStream.h", "Awl/Io/BufferedStream.h", "Awl/Io/VectorStream.h"],
 [("block accumulation with the hash appended", "HashOutputStream::Write"), ("block read and verified at once", "HashInputStream::PeekBuf")],
 observe=["bytes returned by Read", "End()", "exceptions"])

prop("C06", "Version tolerant reading maps fields by name",
 "Data written by one version of a structure is read by another version so that every field present in both with the same type gets the written value, fields that only the new version has keep their defaults, and fields that only the old version has, of types that the reader knows, are skipped. This holds for any reordering, addition and removal of fields at any nesting depth, in vectors, optionals and variants of structures; a field whose type changed to one that is stored under another type name (signedness, and bool, int8 and one-byte enumerations, deliberately share a name) is reported with an exception and never reinterpreted, and so is an old structure that the reader would have to read as two different new ones.",
 ["programs", "inputs"], "every pair of structure versions built from a set of field names and types, and every value",
 "The tests use one pair of versions.",
 ["Awl/Io/Reader.h", "Awl/Io/Writer.h", "Awl/Io/Vts.h", "Awl/Prototype.h", "Awl/Io/Metadata.h", "Awl/Io/VersionTolerantSerializable.h"],
 [("old prototypes read and matched by name", "Reader::ReadOldPrototypes")], observe=["read value", "exceptions"])

prop("C07", "Plain serialization restores every value and consumes exactly it",
 "Any value composed of integers, booleans, strings, vectors, sets, maps, arrays, tuples, optionals, variants, smart pointers and reflected structures that is written to a stream and read into a fresh object gives an equal value, and reading consumes exactly the bytes written so that values can follow one another. Reading a truncated stream throws an end-of-file error.",
 ["inputs"], "every value of the recursive value universe, every truncation point",
 "The tests use a few fixed values.",
 ["Awl/Io/ReadWrite.h", "Awl/Io/Rw"], [("Read/Write overloads", "Awl/Io/Rw/*.h")], observe=["read value", "stream position"])

prop("C10", "vector_set is a sorted set with exact positions",
 "After any history of insertions, emplacements, erasures by key or iterator, copies, moves, assignments and clears, the set contains exactly the inserted and not yet erased keys in ascending order (descending in reverse iteration), and size, find, contains, lower and upper bounds, access by position, position of a key or iterator, and comparison agree with that sorted sequence. An element keeps its address and its iterators stay valid until that element is erased, also when the whole set is moved.",
 ["histories", "inputs"], "every sequence of operations and keys",
 "The tests use random insertions and erasures that check a part of the interface, and erasing is not followed by position checks.",
 ["Awl/VectorSet.h", "Awl/QuickList.h", "Awl/DoubleNodeIterator.h"],
 [("counted red-black tree plus a linked list of the nodes", "vector_set")], [("count", "number of descendants of a node", "vector_set::Link")],
 ["public interface of vector_set"])

prop("C11", "vector_set looks up by key and position in logarithmic time",
 "The number of key comparisons made by a lookup, insertion or erasure in a set of N elements is bounded by a small multiple of log2(N+1), whatever the history of insertions and erasures that produced the set.",
 ["histories"], "every sequence of insertions and erasures",
 "The tests never count comparisons.",
 ["Awl/VectorSet.h"], [("red-black rebalancing", "BalanceAfterInsert, BalanceAfterRemove")], observe=["comparator calls"])

prop("C12", "observable_set tells its subscribers every change exactly once",
 "Each subscriber of an observable set gets one added notification per element actually inserted (when it is already in the set), one removing notification per element actually erased (while it is still in the set) and one clearing notification when a non-empty set is cleared or destroyed, in the order of the changes, and nothing for operations that change nothing. Moving a set moves its content and subscribers without notifications; migrating moves the content only, with a clearing notification of the source and added notifications of the target.",
 ["histories"], "every sequence of set operations, subscriptions and unsubscriptions with several subscribers",
 "The tests check one short sequence.",
 ["Awl/ObservableSet.h", "Awl/Observable.h", "Awl/VectorSet.h"], [("Notify around each change of the set", "observable_set")], observe=["notifications", "content of the set inside a notification"])

prop("C13", "A mirror equals its source after every change",
 "After a mirror starts reflecting a source (an observable set or another mirror), it contains exactly the elements of the source after every change of the source, whatever the element order of the mirror is, including through chains of mirrors and after the mirror or the source is moved. After the source is destroyed or the mirror unsubscribed, the mirror stops changing except that destroying a non-empty source empties it.",
 ["histories"], "every sequence of source changes, reflections, moves and destructions",
 "The tests check one fixed sequence of changes.",
 ["Awl/MirrorSet.h", "Awl/ObservableSet.h", "Awl/Observable.h"], [("OnAdded, OnRemoving, OnClearing", "mirror_set")], observe=["content of both sets"])

prop("C14", "A foreign_set is the source grouped by foreign key",
 "A foreign set built on a source contains exactly one group per foreign key occurring in the source, in key order, and each group contains exactly the source elements with that key ordered by primary key, after every change of the source; no empty group remains. Its subscribers are told about groups appearing and disappearing exactly when that happens.",
 ["histories"], "every sequence of source changes over several keys and groups",
 "The tests check one fixed sequence per pointer kind.",
 ["Awl/ForeignSet.h", "Awl/ObservableSet.h"], [("OnAdded, OnRemoving, OnClearing", "foreign_set")], observe=["groups and their elements", "notifications"])

prop("C15", "Observers are notified exactly while subscribed",
 "A notification reaches exactly the observers that are subscribed, each once and in the order of subscription, also when an observer unsubscribes or destroys itself inside its notification. A moved observer takes over the subscription in the same position, a moved observable takes over all its subscribers, and destroying or reassigning either side unsubscribes it, so no destroyed object is ever called.",
 ["histories"], "every sequence of subscribe, unsubscribe, notify, move, assign and destroy operations on several observables and observers",
 "The tests move one observer and one observable.",
 ["Awl/Observable.h", "Awl/QuickLink.h", "Awl/QuickList.h"], [("self-linking movable observer_link", "Observer"), ("iteration with post-increment", "Observable::Notify"), ("ClearObservers", "Observable")], observe=["calls", "IsSubscribed", "size"])

prop("C16", "quick_list and single_list keep the order of their links",
 "After any history of insertions at both ends or after an iterator, erasures, pops, list splices and list moves, forward iteration gives exactly the expected elements in order, backward iteration gives the reverse, and an element is reported as included exactly while it is in a list. Splicing or moving a list leaves the source empty and usable; an element of several lists through different links is independent in each.",
 ["histories"], "every sequence of operations on two lists and several elements",
 "The tests check a few fixed sequences.",
 ["Awl/QuickList.h", "Awl/QuickLink.h", "Awl/SingleList.h", "Awl/SingleLink.h", "Awl/DoubleIterator.h", "Awl/SingleIterator.h"],
 [("two singly linked lists over one null element", "quick_list")], observe=["iteration in both directions", "included()", "size()"])

prop("C17", "ring is a bounded double-ended queue that overwrites",
 "After any history of pushes and pops at both ends, reserves, clears, copies, moves and assignments, a ring holds exactly the last pushed elements that fit its capacity in order, pushing into a full ring drops exactly one element at the opposite end, and indexing, iteration in both directions, front, back, size, full and comparison agree with that. Every element is destroyed exactly once, checked access outside the size throws, and the capacity never changes except by reserve, assignment or move.",
 ["histories", "inputs"], "every sequence of operations, capacities and values",
 "The tests run fixed sequences with small capacities.",
 ["Awl/Ring.h"], [("allocate_next, allocate_prev", "ring"), ("reserve keeps the newest elements", "ring::reserve")], observe=["public interface", "constructor and destructor counts"])

prop("C18", "object_pool never shares an object and recycles it after Finalize",
 "An object handed out by a pool is owned by one caller group until its last shared pointer is gone; then it is finalized exactly once and only after that can be handed out again. The pool creates a new object only when no free one exists, clearing destroys exactly the free objects, and every object is destroyed exactly once.",
 ["histories"], "every sequence of make, add, copy, release, clear and re-entrant Finalize",
 "The tests run a fixed sequence.",
 ["Awl/ObjectPool.h", "Awl/PooledObject.h"], [("shared_ptr deleter returning the object to the free list", "object_pool::Deleter")], observe=["object identity", "Finalize calls", "destructor calls"])

prop("C20", "UpdateQueue applies every update once, in order, across threads",
 "An update pushed by any thread is applied exactly once by the next applying call that starts after the push, in the order in which the pushes happened, on the applying thread, unless it is discarded by a clear-pending call before that call or an earlier update of the same batch throws. Updates pushed while a batch is applied, also by the updates themselves, wait for the next batch; after an exception the queue keeps working.",
 ["schedules", "histories"], "every interleaving of pushing, clearing and applying threads, and every re-entrant or throwing update",
 "The test pushes from one thread without contention.",
 ["Awl/UpdateQueue.h", "Awl/QuickList.h", "Awl/ScopeGuard.h"], [("pending, rendering and free lists exchanged under a recursive mutex", "UpdateQueue")], observe=["calls of the updates"])

prop("C21", "Stop callbacks run exactly once or are surely deregistered",
 "In the bundled stop_token implementation exactly one stop request succeeds per state, every callback registered before or after it runs exactly once (synchronously when registered after), and a destroyed callback never runs later: its destructor returns only when the callback is not being executed by another thread. Destroying a callback from inside itself or another callback neither deadlocks nor touches freed memory; stop_possible is true exactly while a stop was requested or a source exists.",
 ["schedules", "histories"], "every interleaving of requesting, registering and deregistering threads",
 "The tests exercise a few fixed interleavings with sleeps.",
 ["Extras/JThread/JThreadExtras/stop_token.hpp"], [("locked and counted atomic state word", "__stop_state")], observe=["callback invocations", "return of destructors", "request_stop results"])

prop("C22", "Interruptible condition waits never lose a wakeup or a stop",
 "In the bundled condition variable, a wait with a stop token returns when its predicate holds or a stop was requested, whichever order and interleaving the notification, the stop request and the start of the wait have, and it returns the value of the predicate with the lock held. A stop request wakes every interruptible waiter and a notification issued after the state change under the lock is never lost; a timed wait ends at its deadline at the latest. The condition variable may be destroyed as soon as every waiting thread has been notified, before they have returned.",
 ["schedules"], "every interleaving of waiting, notifying and stopping threads, with and without timeouts",
 "The tests rely on sleeps to order the threads; one of them is excluded as unstable.",
 ["Extras/JThread/JThreadExtras/condition_variable_any2.hpp", "Extras/JThread/JThreadExtras/stop_token.hpp"], [("stop callback that notifies under the internal mutex", "condition_variable_any2::wait")], observe=["return of wait", "predicate value"])

prop("C23", "A jthread always stops and joins its thread",
 "Destroying or move-assigning a joinable bundled jthread requests stop on its own stop state and returns only after its function has finished, so no started function outlives its handle. The function gets the token exactly when it accepts one, arguments are forwarded, and moves and swaps transfer the thread with its stop source.",
 ["schedules", "histories"], "every interleaving of the handle's operations with the thread's function",
 "The tests run a few fixed sequences under the system scheduler.",
 ["Extras/JThread/JThreadExtras/jthread.hpp"], [("request_stop and join in the destructor and move assignment", "jthread")], observe=["thread function start and end", "joinable", "stop_requested"])

prop("C24", "An interruptible sleep ends promptly on stop",
 "An interruptible sleep returns no later than its duration and, when stop is requested before or at any moment during it, returns without waiting for the rest of the duration. It never returns early without a stop request.",
 ["schedules"], "every interleaving of the stop request with the steps of the sleep",
 "The tests request stop long after the sleep has begun, so the window between checking and waiting is never hit.",
 ["Awl/Sleep.h"], [("stop callback notifying a condition variable", "sleep_for")], observe=["return time in virtual time"])

prop("C25", "A watchdog stops exactly on timeout or cancellation",
 "The token given by a watchdog becomes stopped when its timeout elapses, after the log function was called exactly once, or when the caller's token is stopped, without the log function being called by the cancellation; the watchdog's destructor returns promptly and the log function is never called after it. This holds for arbitrarily short timeouts and stops at any moment of construction and destruction.",
 ["schedules"], "every interleaving of the timer thread, the cancelling thread, construction and destruction, and every timeout",
 "The tests use timeouts of at least some milliseconds and no race with construction or destruction.",
 ["Awl/WatchDog.h", "Awl/Sleep.h"], [("member order: the thread starts last and is joined first", "watch_dog")], observe=["log calls", "token state"])

prop("C30", "A generator yields its body's values lazily and releases its frame once",
 "Iterating a generator runs its body only as far as needed and gives exactly the yielded values in order by reference; an exception of the body reaches the consumer at the step that caused it and the generator is then at its end. Moving, swapping, assigning or abandoning a generator at any point destroys each coroutine frame and its locals exactly once, and mapping a generator applies the function to each value in order.",
 ["histories"], "every sequence of advance, dereference, move, swap, assign and destroy over bodies that yield, throw or end",
 "The tests iterate one Fibonacci sequence.",
 ["Awl/Coro/Generator.h"], [("promise keeps the address of the yielded value and the exception", "generator_promise")], observe=["values", "side effects of the body", "destructor counts"])

prop("C31", "An asynchronous generator hands over each value in turn",
 "A coroutine consuming an asynchronous generator gets exactly the yielded values in order, also when the producer suspends on other awaitables between them, and is resumed once per value and once at the end; an exception of the producer reaches the consumer's advance. Abandoning or moving the generator at any suspension point of the producer's yields destroys frames exactly once.",
 ["schedules", "histories"], "every order of resumption of the awaited operations and every producer script",
 "The test runs one sequence with a timer.",
 ["Awl/Coro/AsyncGenerator.h"], [("symmetric transfer between producer and consumer", "async_generator_promise_base")], observe=["values", "order of side effects"])

prop("C32", "A task delivers its result to its awaiter exactly once",
 "A process or update task starts immediately, runs to each suspension point, and its awaiter is resumed exactly once after it completed, whether it completed before or after it was awaited; the result or exception (for process tasks) is what the awaiter gets. Frames are destroyed exactly once: with the task object, or at completion after the task was released.",
 ["schedules", "histories"], "every completion order of nested tasks and every moment of awaiting, moving, releasing and destroying",
 "The tests run a fixed tree of timers.",
 ["Awl/Coro/ProcessTask.h", "Awl/Coro/UpdateTask.h"], [("m_awaitingCoroutine resumed at the final suspension", "ProcessPromise, UpdatePromise")], observe=["order of side effects", "results", "destructor counts"])

prop("C33", "Timed resumptions happen in deadline order",
 "Coroutines suspended on the time queue are resumed by its loop exactly once each, never before their deadline, and in the order of their deadlines, including those added by resumed coroutines; the loop returns when none is left. A non-positive delay does not suspend.",
 ["histories", "schedules"], "every set of delays and every nesting of new delays",
 "The tests do not check the order or the moments of resumption.",
 ["Awl/Testing/TimeQueue.h", "Awl/KeyCompare.h"], [("priority queue by target time", "TimeQueue")], observe=["order and virtual time of resumptions"])

prop("C40", "An aggregator calls its function only with a complete set of values",
 "The function of an aggregator is called exactly when a value is set and all of the arguments have been set at least once and it was not cancelled before, with the last value set for each argument; it is never called with a missing value (an argument that can only be moved is given once). After cancellation it is never called.",
 ["histories"], "every order of setting, overwriting and cancelling",
 "The test sets each value once in one order.",
 ["Awl/Aggregator.h"], [("optional per argument and a check on each set", "aggregator::set")], observe=["calls and their arguments"])

prop("C41", "Shared singletons have at most one instance alive",
 "At any time at most one instance of a shared or on-demand singleton type exists, all holders share it and it is destroyed when the last holder is gone. After that the shared singleton returns null forever while the on-demand singleton creates a new instance; a failed creation leaves no trace.",
 ["histories"], "every sequence of acquisitions, releases and failing creations",
 "The tests run one short sequence.",
 ["Awl/SharedSingleton.h"], [("static weak pointer", "shared_singleton, ondemand_singleton")], observe=["instance identity", "constructor and destructor counts"])

prop("C42", "Scope guards and unique pointers act exactly once",
 "A scope guard runs its function exactly once, at the end of the life of the guard that finally owns it, unless it was created disengaged or released, however it was moved, and a guard that is assigned first runs the function it owned before; its paired initialiser runs exactly once before that and only if it is engaged. A unique pointer destroys each object it owns exactly once, when reset, reassigned or destroyed, unless released.",
 ["histories"], "every sequence of construction, move, assignment, release and destruction over several guards or pointers",
 "The tests run a few fixed sequences.",
 ["Awl/ScopeGuard.h", "Awl/UniquePtr.h"], [("engaged flag", "scope_guard"), ("m_p", "unique_ptr")], observe=["calls and destructor counts"])

prop("C43", "Decimals keep their exact value or refuse",
 "A decimal represents exactly the number it was made from, and parsing, printing, rescaling, addition, subtraction, multiplication (multiply), comparison of decimals and rounding (floor, ceil, truncate, make_rounded and the like) give exactly the mathematically defined result or throw std::logic_error; no result silently loses digits or wraps, and nothing representable is refused. Printing and parsing, and storing and restoring, are inverse to each other. Arithmetic that is documented to go through double (operators * and / and those with a double operand) is not covered.",
 ["inputs"], "every pair of values and digits near and beyond the limits of the representation",
 "The tests use selected values.",
 ["Awl/Decimal.h", "Awl/DecimalData.h", "Awl/DecimalConstants.h", "Awl/DecimalTime.h", "Awl/Io/Rw/DecimalReadWrite.h"], [("sign, exponent and mantissa bit fields with overflow checks", "decimal")], observe=["value, digits, string, exceptions"])

prop("C44", "A bitmap is a set of enumerators",
 "After any history of set, reset, union, intersection, symmetric difference, complement and assignment by enumerator or by bitmap, a bitmap contains exactly the enumerators of the corresponding mathematical set; test, indexing, any, all, none, count, size, comparison and serialization agree with it.",
 ["histories", "inputs"], "every sequence of operations over every enumeration size used",
 "The tests check a few fixed combinations.",
 ["Awl/BitMap.h", "Awl/EnumTraits.h"], [("std::bitset indexed by enumerator", "bitmap")], observe=["public interface"])

prop("C45", "Composed comparers are strict weak orders",
 "The composite, key, pointer, reversing and transparent comparers order objects lexicographically by the composed keys, reversed where asked, consistently for object-object and object-key comparisons and for every pointer kind, so they are strict weak orders suitable for sorted containers. Swapping the operands of a reversing comparer gives the original order.",
 ["inputs"], "every pair and triple of keys",
 "The tests check a few pairs.",
 ["Awl/CompositeCompare.h", "Awl/TransparentCompositeCompare.h", "Awl/ReverseCompare.h", "Awl/KeyCompare.h"], [("comparers applied in turn", "CompositeCompare")], observe=["comparison results"])

prop("C46", "Command line options reach the tests by name and type",
 "Options given on the command line (a name is two hyphens, a letter and at least one more letter, digit or underscore) are available to a test under their names with their values converted to the requested type; flags are true exactly when present; missing options give the default; malformed lines, unknown options that no test used, and values that are malformed or out of the range of the type are reported rather than ignored or replaced. The test filter selects exactly the tests whose whole names match it.",
 ["inputs"], "every sequence of option names and values, every text of a value in every type, every filter",
 "The tests exercise the attributes with defaults only.",
 ["Awl/Testing/CommandLineProvider.cpp", "Awl/Testing/AttributeProvider.h", "Awl/Testing/TestMap.cpp", "Awl/StaticChain.h"], [("option map built once and marked when used", "CommandLineProvider")], observe=["attribute values", "exceptions", "selected tests"])

prop("C47", "A test run reports failure exactly when a selected test fails",
 "The test console runs exactly the selected tests, each once per requested execution and in the order of their names, until the first failure; the output of the tests is shown as the output option says (always, only for the failed execution, or never); a test that runs longer than its time limit has its stop token stopped after the fact is reported; the last line and the exit code of the process say whether all of them passed. Malformed options, unknown tests and test names that are used twice are failures, and listing the tests runs none of them.",
 ["inputs", "histories"], "every set of tests and outcomes, every combination of the options",
 "The test framework is what runs the tests: a run that hides failures passes.",
 ["Awl/Testing/TestConsole.cpp", "Awl/Testing/TestMap.cpp", "Awl/Testing/TestChain.h", "Awl/Testing/TestContext.h", "Awl/Testing/UnitTest.h"],
 [("RunAll, RunTest, the null stream and the collected output", "TestRunner")], observe=["executed tests", "printed output", "exit code"])

prop("C48", "Enumerators and members keep their declared names",
 "The value, index and name conversions of a sequential enumeration are inverse to one another for every enumerator; an unknown name, a wrong index and a wrong stored value are refused; names are found case-insensitively where that is asked for. The list of names of an enumeration or of the members of a reflected structure is exactly the list of the declared ones whatever the spacing between them, in the order of declaration, and the prototypes made from a structure (attached and detached) have its names and the types of its members.",
 ["inputs"], "every enumeration and structure, every index, name and stored value",
 "The tests check a few names of a few enumerations.",
 ["Awl/EnumTraits.h", "Awl/Reflection.h", "Awl/Prototype.h", "Awl/Io/Rw/EnumReadWrite.h", "Awl/StringFormat.h"], [("names parsed from the stringized arguments", "MemberList::traverse"), ("underlying values are indices", "EnumTraits")], observe=["names", "values", "exceptions"])

prop("C50", "A stream is a position in a sequence of bytes",
 "A file stream reads, writes, seeks, truncates and reports its length and position exactly as a position in the bytes of the file; a read returns what is there; a stream is at its end exactly when nothing is left to read. A failing system call is reported as an exception, a short write too, and nothing else changes. Every file descriptor is closed exactly once, by the stream that owns it after any moves, including moves to itself. The same holds for the memory, standard and measuring streams as far as they have these operations; a read of raw data that meets the end is an end-of-file error.",
 ["histories", "faults"], "every sequence of operations over several streams and files, every failing system call",
 "The tests write and read a few files without failures and never look at descriptors.",
 ["Platforms/Posix/Awl/Io/NativeStream.h", "Platforms/Posix/Awl/Io/UniqueHandle.h", "Awl/Io/VectorStream.h", "Awl/Io/StdStream.h", "Awl/Io/MeasureStream.h", "Awl/Io/Rw/ReadRaw.h", "Awl/Io/BasicReader.h"],
 [("owned descriptor", "UniqueHandle"), ("system calls with checks", "UniqueStream")], observe=["bytes, lengths, positions", "system calls", "exceptions"])

prop("C51", "The stored form is fixed byte by byte",
 "The bytes that plain serialization, version tolerant serialization and files with a header and checksummed blocks store for a value are exactly those of the format: integers little-endian in their size, counts of eight bytes, flags packed from the lowest bit, optional and pointer values behind one byte, variants behind the index, enumerators as their underlying value, decimals as sign, exponent and mantissa, times in nanoseconds, the fields of structures in their order; the type names, prototypes and structure indices of the version tolerant form; the header, and the checksum behind every block. So files written before a change stay readable, and reading them gives the value that was written.",
 ["inputs"], "every supported type and every value of it, every block size",
 "The tests write and read with the same code, so a change of the format on both sides passes them and makes all existing files unreadable.",
 ["Awl/Io/Rw/ArithmeticReadWrite.h", "Awl/Io/Rw/VectorReadWrite.h", "Awl/Io/Rw/CollectionReadWrite.h", "Awl/Io/Rw/VariantReadWrite.h", "Awl/Io/Rw/TuplizableReadWrite.h", "Awl/Io/Writer.h", "Awl/Io/HeaderedSerializable.h", "Awl/Io/HashStream.h", "Awl/Mp/TypeDescriptor.h", "Awl/Mp/TypeCollector.h"],
 [("Write overloads", "Awl/Io/Rw"), ("type table and prototypes", "Writer::WriteNewPrototypes"), ("type names", "type_descriptor")], observe=["bytes written", "values read back"])

prop("C52", "Hash values are CRC-64 (Jones) of the bytes",
 "The checksum of any bytes from any seed is CRC-64/Jones by its definition, the same for every container, iterator, string, literal and at compile time; continuing from a checksum is the same as going on; elements of several bytes count as their bytes, the most significant first; an integer and its array of bytes convert to each other without loss; the hash of a type is that of its stored name.",
 ["inputs"], "every byte sequence, every seed",
 "The tests compare a few strings.",
 ["Awl/Crypto/Crc64.h", "Awl/Crypto/FixedHash.h", "Awl/Crypto/IntHash.h", "Awl/Int2Array.h", "Awl/Mp/TypeHash.h"], [("table driven update", "Crc64")], observe=["hash values"])

prop("C49", "Registered objects and factories are found by name",
 "A chain holds what was registered in it, also before main, the latest first; a name, given as any copy of its characters or as a string, finds the latest object registered under exactly that name in the chain of that type and nothing otherwise; objects are made from the arguments of the registration and can be changed in place; create() calls the factory of exactly that name and signature with its arguments and returns its result, and throws FactoryException naming the factory when there is none.",
 ["inputs", "histories"], "every sequence of registrations, lookups and creations over chains of five types",
 "The tests look up three objects and five factories that are registered once.",
 ["Awl/StaticChain.h", "Awl/StaticFactory.h", "Awl/StaticSingleton.h", "Awl/SingleList.h"],
 [("lookup", "StaticChain.h StaticChain::find"), ("registration", "StaticChain.h StaticLink::StaticLink"), ("creation", "StaticFactory.h create")], observe=["what is found", "what is created", "exceptions"])

prop("C53", "Texts are compared, converted and printed exactly",
 "C strings compare lexicographically by their codes, or, ignoring the case of ASCII letters, consistently with the case-insensitive equality; conversions between bytes (in a UTF-8 locale) and wide characters keep every character and throw on what cannot be converted; fixed strings concatenate, compare and convert as their characters; a separator is printed between the items only; an optional value prints as the value or \"empty\"; format() gives what was put into it; 128-bit integers print all their digits, unsigned ones with width and filling as other integers; a logged message is one line of time, level and text; an exception keeps its message.",
 ["inputs"], "every text, every number, both character types",
 "The tests compare six pairs of strings and print two numbers.",
 ["Awl/String.h", "Awl/FixedString.h", "Awl/StringFormat.h", "Awl/Separator.h", "Awl/Logger.h", "Awl/ConsoleLogger.h", "Awl/LogString.h", "Awl/LogLevel.h", "Awl/Exception.h"],
 [("comparison", "String.h CStringLess, CStringInsensitiveLess, StringInsensitiveEqual"), ("conversion", "String.h EncodeString, DecodeString"), ("128-bit output", "String.h operator<<"), ("separator", "Separator.h operator<<")], observe=["results of comparisons", "converted and printed texts"])

prop("C55", "Stop watches, times and small numeric helpers are exact",
 "A stop watch measures the time of the steady clock since it was made, reset or the given start, in any unit rounded down, and HasElapsed tells whether at least the interval has passed; durations print as hours:minutes:seconds with their fraction; make_time gives the moment of local calendar fields (the month counted from 0) plus the fraction; clamp, sign, round, angles and integer ranges give their definitions for every type; position_changed tells whether an element is out of order with its neighbours; y_combinator recurses; an optional mutex locks exactly the mutex it has.",
 ["inputs", "histories"], "every time, duration, calendar field and number in range",
 "The tests measure real time once, and the test of make_time is not compiled here.",
 ["Awl/StopWatch.h", "Awl/Time.h", "Awl/Math.h", "Awl/IntRange.h", "Awl/RangeUtil.h", "Awl/Combinator.h", "Awl/OptionalMutex.h"],
 [("elapsed time", "StopWatch.h"), ("calendar", "Time.h make_time"), ("order of neighbours", "RangeUtil.h position_changed")], observe=["results"])

prop("C54", "Structures behave as the tuple of their members",
 "A structure that lists its members compares (==, !=, <, >, <=, >=) lexicographically by all of them in the listed order, a nested one by its own members; equal structures have equal hashes and the hash depends on every member and their order; the members are visited once each, in order, with their indices, and can be read, assigned and changed through the tuple, the copy being unaffected; getters give the member itself; functions over tuples (transformation, arrays, casts to a base, maps of types to indices) keep the order; a tuple made of arguments refers to lvalues and copies temporaries.",
 ["inputs"], "every pair of values of structures with numbers, texts, optional members, lists and nested structures",
 "The tests compare a few structures.",
 ["Awl/Tuplizable.h", "Awl/TupleHelpers.h", "Awl/Hashable.h", "Awl/Getters.h", "Awl/TypeTraits.h", "Awl/FunctionTraits.h", "Awl/Reflection.h"],
 [("comparison of the tuples of members", "Tuplizable.h objects_equal / objects_less"), ("hash of a tuple", "Hashable.h GetTupleHash"), ("visiting", "TupleHelpers.h for_each, for_each_index")], observe=["results of comparisons", "hash values", "visited members"])

prop("C56", "Wide (multiprecision) integers are stored and read exactly",
 "A Boost multiprecision integer of 128 to 1024 bits is stored as one byte with the count of its bytes and the sign, and its magnitude with the most significant byte first; what was stored is read back as the same number whatever the variable held before, values one after another too, also as fields of version tolerant structures and inside decimals with wide mantissas; a number of more than 127 bytes is refused before anything is written; stored bytes that cannot be a value of the type (no bytes, too many bytes, the sign of an unsigned one) are refused as corrupted, a short stream as its end, and nothing beyond the value is consumed.",
 ["inputs"], "every number of every type and every sequence of stored bytes",
 "The tests of the multiprecision types are not compiled in this configuration and do not store any.",
 ["Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h", "Extras/Boost/BoostExtras/MultiprecisionTraits.h", "Extras/Boost/BoostExtras/Io/MultiprecisionTypeName.h", "Extras/Boost/BoostExtras/MultiprecisionDecimalData.h"],
 [("stored form", "MultiprecisionReadWrite.h Read, Write"), ("bits of a wide decimal", "MultiprecisionDecimalData.h"), ("type name", "MultiprecisionTypeName.h")], observe=["stored bytes", "values read", "exceptions"])

prop("C57", "Any bytes are read as the value they stand for or refused",
 "Whatever bytes a stream holds - stored, damaged, cut, lengthened or made up - reading a value of a supported type either gives the value that they stand for and consumes exactly its bytes (any byte but zero is true, the bits that fill up packed flags mean nothing, sets and maps keep the first of equal keys), or throws an exception: when the bytes end before the value, or a sequential enum has none of its enumerators, a variant has no such alternative, a decimal cannot have the exponent, a structure has an index without a prototype, or a string is longer than the limit of the context. Nothing outside of the bytes and the value is touched, also when the prototypes of a version tolerant stream are damaged. Writing a value that is no enumerator, or a string longer than the limit, is refused too.",
 ["inputs"], "every sequence of bytes and every supported type",
 "The tests read what was written before; some read a stream that was cut at one place.",
 ["Awl/Io/Rw/ReadRaw.h", "Awl/Io/Rw/StringReadWrite.h", "Awl/Io/Rw/VectorReadWrite.h", "Awl/Io/Rw/CollectionReadWrite.h", "Awl/Io/Rw/VariantReadWrite.h", "Awl/Io/Rw/OptionalReadWrite.h", "Awl/Io/Rw/PointerReadWrite.h", "Awl/Io/Rw/EnumReadWrite.h", "Awl/Io/Rw/DecimalReadWrite.h", "Awl/Io/Rw/ArithmeticReadWrite.h", "Awl/Io/Rw/ChronoReadWrite.h", "Awl/Io/Rw/BitMapReadWrite.h", "Awl/Io/Rw/AtomicReadWrite.h", "Awl/Io/Reader.h"],
 [("end of the bytes", "ReadRaw.h ReadRaw"), ("alternatives", "VariantReadWrite.h ReadVariant"), ("enumerators", "EnumReadWrite.h ValidateEnum"), ("limits", "StringReadWrite.h CheckStringLimit"), ("prototypes", "Reader.h ReadStructIndex, AttachMetadata")], observe=["values read", "bytes consumed", "exceptions", "memory errors"])

prop("C58", "An assertion of a test fails exactly when it does not hold",
 "An assertion that holds does nothing, one that does not hold throws a TestException: a condition that is not true (or not false), values that are not equal, a function that does not throw the expected exception or one derived from it (any other exception goes on as it is), or an explicit failure; nothing after it is evaluated, and each condition, value and function is evaluated exactly once. The message tells the given message, the expression and its place in the source when macros are used, both values when they should be equal, the class when it should be thrown. When assertions are compiled out, their arguments are not evaluated. An attribute tells its name, its type and its default value; a value formatted as text is read back as the same value; a malformed value is reported with the name and the text.",
 ["inputs", "histories"], "every sequence of assertions, every pair of expected and thrown exceptions, every value of an attribute",
 "The tests use assertions that hold: one that never fails would pass all of them.",
 ["Awl/Testing/TestAssert.h", "Awl/Testing/TestException.h", "Awl/Testing/LocalAttribute.h", "Awl/Testing/Formatter.h", "Awl/Testing/ScalarFormatter.h"],
 [("expected exceptions", "TestAssert.h Assert::Throws"), ("conditions and values", "TestAssert.h IsTrue, IsFalse, AreEqual"), ("messages", "TestAssert.h AWT_ macros"), ("attributes", "LocalAttribute.h, Formatter.h")], observe=["thrown exceptions", "messages", "evaluated expressions"])

prop("C59", "The types of a structure are all found, once each, by their names",
 "The list of types that version tolerant serialization derives from a structure contains the structure, every type that occurs in it at any depth (members of members, elements, keys and values, alternatives, targets of pointers) and the declared types of its deleted members, each once and in the order in which they occur; pairs, characters of texts and numbers of plain arrays are no types of their own. A list made of several structures or of a tuple is the same for all of them together; it is split into the structures and the others without losing the order, and an empty part holds std::monostate. A type is found in a list exactly when it is there, at its index. The name of a type is composed of the names of its parts (types that are stored in the same way have the same name) and its hash is the checksum of the name.",
 ["inputs"], "every type composed of the supported ones",
 "The tests compare some lists and names of a few types; the rules have to hold for every structure of a user.",
 ["Awl/Mp/TypeCollector.h", "Awl/Mp/TypeConverter.h", "Awl/Mp/TypeDescriptor.h", "Awl/Mp/TupleToVariant.h", "Awl/Mp/VariantFromStructs.h", "Awl/Mp/TypeHash.h", "Awl/TupleHelpers.h", "Awl/FixedString.h"],
 [("types of a type", "TypeCollector.h type_collector"), ("names", "TypeDescriptor.h type_descriptor"), ("a tuple as a variant, split", "TupleToVariant.h"), ("deleted members", "TypeConverter.h type_converter")], observe=["lists of types", "names of types", "hashes of names"])

prop("C60", "Sets and rings lose nothing when an element or memory fails",
 "Elements that cannot be constructed or copied, comparers that throw and memory that cannot be allocated do not damage a set or a ring: the exception reaches the caller, and a failed construction, insertion, lookup, removal, push or change of the capacity leaves every container as it was (a failed copy assignment may leave the first elements of the source, a failed push into a full ring may have dropped the element at the other end). Repeated without the failure, the operation does what it would have done. At any time each element is alive exactly once and is neither used before its construction nor after its destruction; each block of memory belongs to one container and is given back once, with the size it was asked for, to the allocator it came from: copies are made with the allocator of the source, copy assignments keep the allocator of the target, moves take the allocator along.",
 ["histories", "crash_points"], "every sequence of operations over several containers with two allocators, and every point at which each of them can fail",
 "The tests use elements, comparers and allocators that never fail, and one allocator.",
 ["Awl/VectorSet.h", "Awl/Ring.h"],
 [("nodes", "VectorSet.h ConstructNode, InsertNode, CopyElements"), ("buffer", "Ring.h reserve, copy, free")], observe=["contents", "elements alive", "blocks of each allocator", "exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
