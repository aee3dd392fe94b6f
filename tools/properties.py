# ---------------------------------------------------------------- core containers and values
prop("C01", "Ring buffer is a bounded FIFO under every operation sequence",
 "After any sequence of writes (with or without overwrite), reads, skips, bulk fills through the free blocks, clears, copies and capacity changes, the ring buffer holds exactly the elements a bounded first-in-first-out queue would hold, in the same order, and every view of them (size, reserve, indexed access, iteration in both directions, iterator differences, the contiguous filled and free blocks) agrees. Overwriting drops exactly the oldest element, shrinking keeps exactly the newest, reads from an empty and non-overwriting writes to a full buffer throw and change nothing.",
 ["histories"], "every operation sequence up to a depth, for capacities 0..4, from every storage rotation",
 "the tests fill one fixed pattern per element type; wrap-around states reached by mixed operation histories are not covered",
 ["icl_core/RingBuffer.h", "icl_core/RingBuffer.hpp"],
 [("read/write positions modulo the storage size, one slot kept free", "icl_core/RingBuffer.h"), ("contiguous block computation", "icl_core/RingBuffer.hpp")],
 note="All operation sequences to depth 4 (thorough 5) and the complete reachable state graph (55 canonical states, depth 14/40) for capacities 0..4, on the real template, under ASan/UBSan. Values are treated as opaque.")

prop("C02", "Time span and time stamp arithmetic is exact and normalised",
 "Every time span and time stamp, however it is built (seconds and nanoseconds, milliseconds, microseconds, timespec, sums, differences, absolute value), denotes exactly the mathematical value in nanoseconds and is normalised: the nanosecond part is below one second in magnitude and never has the opposite sign of the seconds part. Comparison operators agree with the order of those values, adding and then subtracting a span restores the original, scaling by a factor yields the nearest nanosecond within floating point rounding, the day, hour, minute and second parts and the printed terms add up to the value, and the whole-unit conversions truncate toward zero.",
 ["inputs", "histories"], "every pair of boundary values (signs, carry and borrow boundaries of the nanosecond part, unit boundaries) and every short chain of operations on them",
 "the tests construct two spans and compare them; carries across the sign change of the seconds part are not reached",
 ["icl_core/TimeBase.h", "icl_core/TimeBase.cpp", "icl_core/TimeSpan.h", "icl_core/TimeSpan.cpp", "icl_core/TimeStamp.h", "icl_core/TimeStamp.cpp"],
 [("normalisation loop after every arithmetic step", "icl_core/TimeBase.cpp"), ("span operators", "icl_core/TimeSpan.h"), ("stamp operators", "icl_core/TimeStamp.h")],
 note="Exhaustive over a boundary alphabet of second and nanosecond values and all operation chains to depth 3, compared with 128-bit integer arithmetic on the real code.")

prop("C03", "ISO 8601 formatting and parsing are calendar-exact inverses",
 "For every UTC time stamp from 1970 on with a four-digit year, the ISO 8601 basic UTC text is the correct calendar date, time and zero-padded nanoseconds, and parsing it returns the identical time stamp. Parsing a shortened text takes the missing parts as the start of the period (month 1, day 1, midnight, zero nanoseconds; missing fraction digits count as zeros), and conversion from a calendar date-time object yields the same instant. Stamps beyond the four-digit years, up to the greatest one, format without failing to the right text or to an empty date.",
 ["inputs"], "every day from 1970 to 2399 at the boundary seconds of the day and boundary nanosecond values, and every truncation point of the text",
 "the tests convert a handful of dates; leap-year and month rules hold for every day or not at all",
 ["icl_core/TimeStamp.h", "icl_core/TimeStamp.cpp"],
 [("field-wise parse and day count", "icl_core/TimeStamp.cpp"), ("strftime-based formatting", "icl_core/TimeStamp.cpp")],
 note="Complete enumeration of the calendar days in the range against an independent civil-calendar algorithm; time-of-day and fraction values from a boundary alphabet.")

prop("C04", "Sequence numbers form a consistent cyclic order",
 "A wrapping sequence number always stays within its half-open range, incrementing it steps through every value once and wraps from the last to the first, and two distinct sequence numbers are ordered one way only: exactly one of a<b and b<a holds, and the other comparison operators agree with it. A number is less than each of the ones that follow it within less than half of the range, across the wrap-around as well.",
 ["inputs", "histories"], "every pair of values for several small ranges (even, odd, non-zero minimum, signed) and the full 8-bit range",
 "there is no test of the sequence number at all",
 ["icl_core/SequenceNumber.h"],
 [("comparison relative to half of the range", "icl_core/SequenceNumber.h"), ("increment with wrap", "icl_core/SequenceNumber.h")],
 note="Complete over all value pairs of the listed ranges.")

prop("C05", "String helpers: split, join, trim, pad and case conversion are exact",
 "Splitting a text at a delimiter and joining the parts with the same delimiter returns the original text, and no part contains the delimiter; trimming removes exactly the leading and trailing white space; padding yields at least the requested width, keeps the text intact and adds only the pad character on the requested side; case conversion changes letter case only. All of them terminate for every argument, the empty text and the empty delimiter included, and never read outside the text.",
 ["inputs"], "every text over a small alphabet up to a length, every delimiter up to length 2",
 "there is no test of these helpers",
 ["icl_core/StringHelper.h", "icl_core/StringHelper.cpp"],
 [("split/join/trim", "icl_core/StringHelper.cpp"), ("pad and case helpers", "icl_core/StringHelper.h")],
 note="All texts over a 4-letter alphabet to length 6 (thorough 8) with all delimiters to length 2, under ASan/UBSan.")

prop("C06", "URI scheme parsing reproduces the parts it was given",
 "For every text of the form scheme://specifier with an optional #anchor and optional ?key=value&... list, parsing succeeds and returns exactly those parts, the scheme name in lower case with the matching scheme type, and the keys and values in order; printing the result gives the text back. Parsing reports success only if the whole text was consumed, and no result carries parts of an earlier parse over into the next one.",
 ["inputs", "histories"], "every composition of parts from a small vocabulary, every pair of consecutive parses on one parser, every short text over the grammar's special characters",
 "the tests parse six fixed texts, each with a fresh result object",
 ["icl_core/SchemeParser.h", "icl_core/SchemeParser.cpp"],
 [("grammar and semantic actions", "icl_core/SchemeParser.cpp")],
 note="All part combinations and all ordered pairs of a reduced set; short raw texts are compared with an independent recogniser of the documented grammar.")

prop("C07", "Union-find represents exactly the merged partition",
 "After any sequence of merges, growth steps and lookups, two elements have the same representative exactly if they are connected by the merges performed so far; the representative is a member of its own class, lookups never change the partition, new elements start alone, and an index outside the structure is rejected without changing it.",
 ["histories"], "every operation sequence over up to 5 elements (6 thorough) to a depth, and every complete merge sequence",
 "the test performs one merge history",
 ["icl_core/UnionFind.h"], [("parent links with union by rank and path compression", "icl_core/UnionFind.h")],
 note="All operation sequences to the stated depth compared with a naive partition.")

prop("C08", "Small containers behave like their mathematical models",
 "The key/value directory behaves as a map (insertion reports whether the key was new, lookups return the last inserted value, a regular-expression query enumerates exactly the fully matching keys in order and can be restarted), the searchable stack as a stack with linear search from the bottom, the two-dimensional array as a row-major matrix whose cells and index conversions agree, the depth buffer keeps the least value per cell and can be emptied, and the set comparison names the true relation of two sets. Enumeration texts convert to the index of the matching description and to nothing else.",
 ["histories", "inputs"], "every operation sequence to a depth over tiny domains; every pair of subsets of a 4-element universe",
 "none of these containers has a test",
 ["icl_core/KeyValueDirectory.h", "icl_core/KeyValueDirectory.hpp", "icl_core/SearchableStack.h", "icl_core/Array2D.h", "icl_core/ZBuffer.h", "icl_core/SetHelper.h", "icl_core/EnumHelper.cpp", "icl_core/BitfieldHelper.h"],
 [("map-backed directory and its regex iterator", "icl_core/KeyValueDirectory.hpp"), ("row-major indexing", "icl_core/Array2D.h"), ("merge walk over two sorted sets", "icl_core/SetHelper.h")],
 note="All operation sequences to the stated depth per container against std containers as reference.")

prop("C09", "SHA-2 digests are correct for every length and every chunking",
 "For every message, fed in any split into pieces through any of the input functions, SHA-224, SHA-256, SHA-384 and SHA-512 yield the digest defined by FIPS 180, written as fixed-width lower-case hexadecimal; the result does not depend on how the message was split, and after clearing, the object computes a fresh digest unaffected by earlier use.",
 ["inputs", "histories"], "every message length from 0 to beyond two blocks and every split of it into up to three pieces around the block boundaries, plus reuse after clear",
 "the tests use a few lengths, always fed in one piece",
 ["icl_core_crypt/Sha2.h", "icl_core_crypt/Sha2.hpp", "icl_core_crypt/Sha2Impl.h", "icl_core_crypt/Sha2Impl.hpp"],
 [("block buffering across calls", "icl_core_crypt/Sha2.hpp"), ("padding and length field", "icl_core_crypt/Sha2.hpp"), ("compression function", "icl_core_crypt/Sha2Impl.hpp")],
 note="All lengths 0..300 with all two-way splits (all three-way splits at block boundaries) compared with an independent FIPS 180 implementation in the harness.")

prop("C10", "Compressing a file yields a faithful copy or reports failure",
 "When compressing a file reports success, the compressed file decompresses to exactly the bytes of the original; if the original cannot be read or the compressed file cannot be created, written or completed, it reports failure. The original file is never modified, and no file stays open.",
 ["inputs", "fault_sequences"], "file sizes around the copy buffer boundary and every single (thorough: double) failure of an open, read, write or close during the operation",
 "no test compresses a file, let alone under I/O failure",
 ["icl_core/os_fs.cpp", "icl_core/os_fs.h"], [("copy loop through gzip", "icl_core/os_fs.cpp")],
 note="The system calls made by the real function are intercepted; every failure position is enumerated.")

prop("C11", "Singletons are created once, on first use, and destroyed once",
 "However many threads ask for a singleton for the first time, and in whatever order they run, the object is constructed exactly once and every caller gets that one fully constructed object; it is destroyed exactly once at program end and not before.",
 ["schedules"], "all schedules of two and three threads racing for the first access up to a preemption bound, with a constructor that can be interrupted",
 "no test accesses a singleton concurrently",
 ["icl_core/Singleton.h", "icl_core/Singleton.hpp", "icl_core/SingletonCreationPolicies.h", "icl_core/SingletonLifetimePolicies.h", "icl_core_thread/SingletonThreadingModels.h", "icl_core_logging/SingletonThreadingModels.h"],
 [("double-checked creation under the threading model's lock", "icl_core/Singleton.hpp")],
 note="Real template code under the controlled scheduler (every shared access is a scheduling point).")

prop("C12", "Value wrappers keep their contract",
 "A finalizable value accepts every assignment until it is finalised and refuses every one afterwards; a scope-end action runs exactly once when its scope is left, and not at all while disabled; a stamped datum keeps its data and its header, every header field has a defined value from construction on, and copies are independent; expected types compare equal exactly for the same type; setting, clearing and testing bits of a bit field of any width affects exactly the named bits; a wrapped vector behaves as the vector it wraps.",
 ["histories", "inputs"], "every operation sequence to a depth, every construction path over differently filled memory, every single and double bit of every integer width",
 "the tests cover the capacity of one header type only",
 ["icl_core/Finalizable.h", "icl_core/AtScopeEnd.h", "icl_core/DataHeader.h", "icl_core/ExpectedType.h", "icl_core/BitfieldHelper.h", "icl_core/VectorWrapper.h"],
 [("final flag", "icl_core/Finalizable.h"), ("header construction", "icl_core/DataHeader.h"), ("bit operations", "icl_core/BitfieldHelper.h")],
 note="Real templates under ASan/UBSan; construction on pre-filled memory exposes fields left undefined.")
prop("C13", "Portable system wrappers keep the contracts of the calls they stand for",
 "Formatted output never writes more than the given size, always ends the text, keeps the longest prefix that fits and returns the length of the whole text; string and memory copies copy exactly the given bytes; renaming and deleting files have the effect, the result and the reason of failure of the system calls; sleeping takes the whole requested time unless a signal interrupts it, which is reported together with the remaining time; the time of day has the resolution of the clock with a valid nanosecond part; a thread's identity equals itself and no other running thread's; conversions yield the statically converted value or that of the specialisation for the two types.",
 ["inputs", "fault_sequences", "histories"], "every format of up to three conversions with every buffer size, all short strings, every history of three file operations, every interrupted sleep",
 "no test calls the wrappers",
 ["icl_core/os_string.h", "icl_core/os_string.cpp", "icl_core/os_posix_string.cpp", "icl_core/os_mem.h", "icl_core/os_posix_mem.cpp", "icl_core/os_fs.h", "icl_core/os_posix_fs.cpp", "icl_core/os_time.h", "icl_core/os_posix_time.cpp", "icl_core/os_thread.h", "icl_core/os_posix_thread.cpp", "icl_core/os_posix_thread.h", "icl_core/Convert.h"],
 [("platform dispatch to the hidden implementations", "icl_core/os_posix_string.cpp")],
 note="Complete enumeration of the stated arguments; the clock and the sleeping calls are interposed, file operations are done in a scratch directory.")


# ---------------------------------------------------------------- configuration
prop("F01", "Attribute tree lookups return what was last stored",
 "In any history of setting, creating, changing and removing attributes and subtrees by their dotted paths, a lookup returns the value last stored under exactly that path and reports absence otherwise; storing one path never changes what another, unrelated path yields, and removing a subtree removes it and all below it and nothing else. When a tree is destroyed, nothing it allocated remains, whatever was done before.",
 ["histories"], "every operation sequence to a depth over a small set of nested and sibling paths",
 "there is no test of the attribute tree",
 ["icl_core_config/AttributeTree.h", "icl_core_config/AttributeTree.cpp"],
 [("path walk over linked subtree lists", "icl_core_config/AttributeTree.cpp")],
 note="All operation sequences to depth 4 (thorough 5) compared with a map from paths to values, under ASan/UBSan.")

prop("F02", "Attribute trees survive writing and reading back; the parser always ends",
 "Writing an attribute tree and reading it back yields a tree with the same paths and values; comments and include handling do not alter other entries. Reading terminates for every input, including unfinished comments, overlong lines and a last line without line end, reads every complete entry of the text, and never touches memory outside its data. A file that could not be read or written completely is reported, and the tree then still counts as changed. Optional arguments that are left out mean what is documented: includes are followed, comments are skipped, and a tree just loaded or saved counts as unchanged and knows its file.",
 ["inputs", "histories"], "every tree over a small vocabulary up to a size; every text of a few lines over a vocabulary of syntax fragments",
 "there is no test of reading or writing attribute files",
 ["icl_core_config/AttributeTree.h", "icl_core_config/AttributeTree.cpp"],
 [("recursive descent reader", "icl_core_config/AttributeTree.cpp"), ("recursive writer", "icl_core_config/AttributeTree.cpp")],
 note="Small-scope enumeration of trees and of token sequences, with an execution time limit as the termination oracle.")

prop("F03", "File path decomposition is exact and normalisation preserves meaning",
 "For every path text, directory, file name and extension recompose to the path, an absolute path stays absolute, and the normalised form contains no removable '.' or 'name/..' component, denotes the same file, and is unchanged by normalising again. A relative path is relative to the current directory of the process, whatever the environment says about it, and currentDir() is this directory with a final separator. No path text, with or without an extension, makes the decomposition fail. References to environment variables are replaced by the value of the variable, or its name if it is not set, and so are those within the values; this always ends, and a text with an unfinished reference or one that refers to itself stays as it is.",
 ["inputs"], "every path of up to 5 components over a small component alphabet, absolute and relative, in 7 situations of current directory and environment; every text of up to 5 parts with references to variables, some of which refer to others or to themselves",
 "there is no test of path handling",
 ["icl_core_config/AttributeTree.h", "icl_core_config/AttributeTree.cpp"],
 [("textual normalisation", "icl_core_config/AttributeTree.cpp")],
 note="Complete enumeration to the stated number of components against an independent component-wise model.")

prop("F04", "Command line options are recognised, typed and removed exactly",
 "For every declared set of options and every argument vector, each option given in its long or short form with its value is found under its name with exactly that value, flags are found only if given, positional parameters receive the remaining arguments in order, unknown or incomplete options are reported, and help requests are noticed. The help text lists the parameters in the order in which they are expected and every declared option once, with its short form and whether it takes a value. With clean-up requested, exactly the arguments that were consumed disappear from the caller's argument vector and all others keep their order.",
 ["inputs", "configurations"], "every argument vector up to length 4 over an alphabet of declared, undeclared, valued and positional words, for several declarations and clean-up modes",
 "the tests use two fixed command lines",
 ["icl_core_config/GetoptParser.h", "icl_core_config/GetoptParser.cpp", "icl_core_config/GetoptParameter.cpp", "icl_core_config/ConfigPositionalParameter.cpp"],
 [("left-to-right scan of the argument vector", "icl_core_config/GetoptParser.cpp"), ("removal of recognised arguments", "icl_core_config/GetoptParser.cpp")],
 note="Complete enumeration of short argument vectors against a reference parser; fresh process per execution.")

prop("F05", "Configuration sources are merged with a fixed precedence",
 "A configuration key given both in the configuration file and on the command line has the command line's value; the last occurrence wins inside a file, an explicit generic key=value override beats a declared parameter, a declared default applies only if no source gave the key, and every registered observer is told about each change of a key it watches. Looking up a key that no source gave reports absence.",
 ["configurations", "histories"], "every combination of sources for a small set of keys, including nested keys, includes and file absence",
 "the tests read one file with one command line",
 ["icl_core_config/ConfigManager.h", "icl_core_config/ConfigManager.cpp", "icl_core_config/ConfigParameter.cpp", "icl_core_config/Config.cpp"],
 [("merge order in initialisation", "icl_core_config/ConfigManager.cpp"), ("observer notification", "icl_core_config/ConfigManager.cpp")],
 note="All combinations of sources on the real initialisation function with real files in a scratch directory; fresh process per execution.")

prop("F06", "Typed configuration reads are faithful or report failure",
 "Reading a configuration value as a type yields the value the text denotes in that type, strings completely including blanks, numbers including hexadecimal notation; a text that is not a value of the type makes the read report failure or yield the given default instead of an invented value. A batch read of several entries reports success exactly if every required entry could be read, and entries with defaults never fail it, whatever became of the object the default was given by. A list of entries yields one element per entry of the configuration each time it is read, whatever was read before.",
 ["inputs", "configurations"], "every pairing of read operation, target type and value text from an alphabet of valid, malformed, signed, hexadecimal, blank and empty texts",
 "the tests read well-formed values only",
 ["icl_core_config/Config.h", "icl_core_config/ConfigHelper.h", "icl_core_config/ConfigValue.h", "icl_core_config/ConfigValueDefault.h", "icl_core_config/ConfigEnum.h", "icl_core_config/ConfigEnumDefault.h", "icl_core_config/ConfigList.h", "icl_core_config/Util.h"],
 [("string to value conversion", "icl_core_config/ConfigHelper.h"), ("typed accessors", "icl_core_config/Config.h"), ("batch read", "icl_core_config/Config.cpp")],
 note="Complete product of operations, types and texts against a reference conversion.")

# ---------------------------------------------------------------- threads
prop("T01", "Mutex gives mutual exclusion and its timed operations obey their contract",
 "In every schedule at most one thread holds a mutex, and what a holder wrote is seen by the next holder; a thread may lock it again recursively and it is free for others only after as many unlocks. A try-lock or timed lock returns true exactly if it acquired the mutex, never blocks beyond its deadline, and fails if the mutex stayed taken until then; the scoped lock releases on every exit path.",
 ["schedules"], "all schedules of two and three threads with one to three operations each up to a preemption bound, with time passing at every possible point",
 "the tests run one timing-driven schedule",
 ["icl_core_thread/Mutex.h", "icl_core_thread/Mutex.cpp", "icl_core_thread/MutexImplPosix.cpp", "icl_core_thread/ScopedMutexLock.cpp", "icl_core_thread/Common.h"],
 [("pthread mutex wrapper", "icl_core_thread/MutexImplPosix.cpp"), ("relative to absolute timeouts", "icl_core_thread/Common.h")],
 note="Real wrapper code over a modelled pthread layer with a virtual clock; preemption-bounded exhaustive schedules.")

prop("T02", "Read/write lock: shared readers, exclusive writers",
 "In every schedule a writer is alone inside a read/write lock while any number of readers may share it; try and timed variants return true exactly if they acquired the lock and give up at their deadline, a released lock becomes available again, and no thread stays blocked on a free lock.",
 ["schedules"], "all schedules of two and three readers and writers up to a preemption bound, with time passing at every possible point",
 "the tests run one timing-driven schedule per operation",
 ["icl_core_thread/RWLock.h", "icl_core_thread/RWLock.cpp", "icl_core_thread/RWLockImplPosix.cpp", "icl_core_thread/ScopedRWLock.cpp"],
 [("pthread rwlock wrapper", "icl_core_thread/RWLockImplPosix.cpp")],
 note="Real wrapper code over a modelled pthread layer with a virtual clock.")

prop("T03", "Semaphore counts exactly",
 "In every schedule, the number of successful waits on a semaphore never exceeds its initial value plus the posts made so far, every post eventually lets one waiter through, and no wake-up is lost. Try-wait and timed wait return true exactly if they took a unit, time out at their deadline otherwise, and a wait interrupted by a signal neither takes a unit without reporting it nor reports failure before its deadline.",
 ["schedules", "fault_sequences"], "all schedules of two and three threads with posts, waits, try-waits and timed waits, with time passing and signal interruptions at every possible point",
 "the tests run one schedule per operation and never interrupt a wait",
 ["icl_core_thread/Sem.h", "icl_core_thread/Sem.cpp", "icl_core_thread/SemaphoreImplPosix.cpp", "icl_core_logging/Semaphore.cpp", "icl_core_logging/SemaphoreImplPosix.cpp", "icl_core_logging/ScopedSemaphore.cpp"],
 [("POSIX semaphore wrapper", "icl_core_thread/SemaphoreImplPosix.cpp"), ("logging's own copy", "icl_core_logging/SemaphoreImplPosix.cpp")],
 note="Real wrapper code of both components over a modelled semaphore layer with a virtual clock and injected EINTR.")

prop("T04", "Spin lock gives mutual exclusion",
 "In every schedule at most one thread holds a spin lock, writes made inside it are seen by the next holder, a waiting thread gets it once it is released, try-lock returns true exactly if it took the lock, and the scoped form releases it on leaving the scope.",
 ["schedules"], "all schedules of two and three threads up to a preemption bound",
 "there is no test of the spin lock",
 ["icl_core_thread/SpinLock.h", "icl_core_thread/ScopedSpinLock.h"],
 [("atomic test-and-set loop", "icl_core_thread/SpinLock.h")],
 note="Atomic operations are scheduling points; sequentially consistent memory.")

prop("T05", "Threads start once, can be waited for, stopped and restarted",
 "A started thread runs its body exactly once; a successful join returns only after the body has finished and everything the body wrote is visible; stop and cancel requests end the body and are seen by it; a timed wait never gives up before its deadline and never reports success while the body runs; inside the body (and only there) threadSelf() is true; after finishing and being joined a thread object can be started again and reports its state (running, finished) truthfully. Joining, stopping and destroying in any order neither deadlocks nor leaves a body running.",
 ["schedules"], "all schedules of a controller (start, stop, wait, join, cancel, restart, destroy) against one and two bodies up to a preemption bound",
 "the test starts and joins one thread",
 ["icl_core_thread/Thread.h", "icl_core_thread/Thread.cpp", "icl_core_thread/ThreadImplPosix.cpp", "icl_core_thread/ThreadImpl.h"],
 [("start and run mutex hand-over", "icl_core_thread/Thread.cpp"), ("pthread wrapper", "icl_core_thread/ThreadImplPosix.cpp")],
 note="Real thread class over modelled pthreads; deadlock, use after free and leaked threads are violations.")

prop("T06", "Active object executes every queued operation once, in order",
 "Every operation handed to an active object while it runs is executed exactly once, by the object's own thread and never by the caller, in the order in which it was queued per caller, and never two at a time; no operation is lost however queueing and draining interleave, and stopping ends the object without deadlock and without running or leaking operations twice.",
 ["schedules"], "all schedules of one and two producers, the worker and a stopper up to a preemption bound",
 "there is no test of the active object",
 ["icl_core_thread/ActiveObject.h", "icl_core_thread/ActiveObject.cpp", "icl_core_thread/ActiveOperation.h"],
 [("mutex-protected queue with a wake-up semaphore", "icl_core_thread/ActiveObject.cpp")],
 note="Real code under the controlled scheduler with every shared memory access a scheduling point.")

prop("T07", "Periodic threads wait for each period boundary",
 "A periodic thread released by its wait is never released before the next period boundary; boundaries stay one period apart from the first wait on regardless of how long the body takes within a period, missed boundaries are skipped rather than accumulated, and a changed period takes effect. Creating, moving and destroying periodic threads does not use up system resources.",
 ["schedules", "inputs"], "every assignment of body durations (shorter, equal, longer than one or more periods) and period changes over several periods under a virtual clock",
 "the tests sleep for real and accept wide tolerances",
 ["icl_core_thread/PeriodicThread.h", "icl_core_thread/PeriodicThread.cpp", "icl_core_thread/PeriodicThreadImplTimerfd.cpp"],
 [("timer file descriptor re-armed with the period", "icl_core_thread/PeriodicThreadImplTimerfd.cpp")],
 note="Real code over a modelled timerfd and virtual clock.")

prop("T08", "Dispatched operations run once per period in the order they were added",
 "A periodic dispatcher calls each operation added to it exactly once per period from then on, in the order of adding, on its own thread and never two at a time, however long the operations take and whoever adds them (before the start, while it runs, from within an operation); a callback operation gets its own data. Once the dispatcher has been stopped and joined or destroyed nothing is called any more; it can be started again, and it neither deletes nor leaks operations.",
 ["schedules", "histories"], "every short registration history and all schedules of a dispatcher against a controller up to a preemption bound",
 "there is no test of the dispatch component",
 ["icl_core_dispatch/Operation.h", "icl_core_dispatch/Operation.cpp", "icl_core_dispatch/OperationQueue.h", "icl_core_dispatch/CallbackOperation.h", "icl_core_dispatch/CallbackOperation.cpp", "icl_core_dispatch/PeriodicDispatchThread.cpp"],
 [("operation queue draining", "icl_core_dispatch/PeriodicDispatchThread.cpp")],
 note="Real code over modelled threads and clock.")

prop("T09", "Emulated periodic timers release once per period",
 "A periodic timer without help of the operating system never releases its caller earlier than one period after the last release, releases it exactly then if the body took less time and at once if it took longer, whatever the bodies took before; signals do not shorten the wait, a new period is in force from the next wait on, and when the clock is set back, before or during the wait, nobody waits longer than one period for it.",
 ["histories", "fault_sequences"], "every history of four waits over body times, period changes and clock changes, and every one of two waits with up to two signals, late wake-ups or clock changes during the sleeps",
 "there is no test of periodic waiting",
 ["icl_core_thread/PeriodicThreadImplEmulate.cpp", "icl_core_thread/PeriodicThreadImplEmulate.h"],
 [("waiting loop over the wall clock", "icl_core_thread/PeriodicThreadImplEmulate.cpp")],
 note="Real code over an interposed clock and sleep; complete enumeration of the histories.")

prop("T10", "Separate objects can be used by several threads at the same time",
 "Threads that work on separate objects (or only read the configuration) do not disturb each other: formatting and parsing times, looking up enumerations, parsing schemes, handling strings and paths, building, copying, printing, loading and saving attribute trees, also from the same file, searching directories, reading the configuration and compressing files each yield what they yield alone, in every schedule, without conflicting access to memory behind the caller's back.",
 ["schedules"], "every pair of thirteen kinds of operations in two threads, in every schedule with up to two preemptions, preemptions being placed at every conflicting access",
 "a result that is mixed from two threads' data needs a switch between two particular instructions; no test uses two threads on these functions",
 ["icl_core/TimeStamp.cpp", "icl_core/KeyValueDirectory.h", "icl_core/SchemeParser.cpp", "icl_core/os_fs.cpp", "icl_core_config/AttributeTree.cpp", "icl_core_config/Config.h"],
 [("calendar conversion by the C library", "icl_core/TimeStamp.cpp"), ("files that are being loaded", "icl_core_config/AttributeTree.cpp")],
 note="Happens-before detection of conflicting accesses decides where switches matter; every result is compared with the operation's result when it runs alone.")

# ---------------------------------------------------------------- logging
prop("L01", "Log messages reach exactly the outputs whose levels admit them",
 "For every combination of stream level, output level and message level, and every assignment of streams to outputs, a message is written exactly to the outputs its stream is connected to and whose level and the stream's level both admit it, exactly once each; with logging disabled for a stream or the message below the threshold nothing is written and nothing is evaluated into a message.",
 ["configurations", "inputs"], "every combination of the six levels for stream, output and message and every connection of two streams to two outputs, through configuration and through direct calls",
 "there is no test of the logging component",
 ["icl_core_logging/LogStream.h", "icl_core_logging/LogStream.cpp", "icl_core_logging/ThreadStream.h", "icl_core_logging/ThreadStream.cpp", "icl_core_logging/LoggingManager.cpp", "icl_core_logging/LogLevel.h"],
 [("level comparison on output", "icl_core_logging/LogOutputStream.cpp"), ("stream activation", "icl_core_logging/LogStream.cpp")],
 note="Complete product of levels and connections on the real manager; fresh process per execution.")

prop("L02", "Log line formatting follows the configured format exactly",
 "For every log format, the written line consists of the literal text with each field replaced by the message's own value (time in the given format, level, stream, file, line, function, class, object, text), unknown field names and stray markers included, without reading or writing outside the format text; fields absent from the format do not appear.",
 ["inputs", "configurations"], "every format of up to four fragments over the field markers, literals and malformed markers",
 "there is no test of log formats",
 ["icl_core_logging/LogOutputStream.h", "icl_core_logging/LogOutputStream.cpp"],
 [("format compilation and expansion", "icl_core_logging/LogOutputStream.cpp")],
 note="All short fragment sequences against an independent expansion, under ASan/UBSan.")

prop("L03", "Logging from several threads loses, mixes and reorders nothing",
 "When several threads log concurrently, every message that was flushed is handed to each admitting output exactly once and unmixed with other messages, and messages of one thread appear in that thread's order, whether the output works directly or through its worker thread, and while outputs are added, removed or given another format. No schedule deadlocks.",
 ["schedules"], "all schedules of two logging threads, one or two outputs and the output worker up to a preemption bound",
 "there is no test of concurrent logging",
 ["icl_core_logging/LogStream.cpp", "icl_core_logging/LogOutputStream.cpp", "icl_core_logging/ThreadStream.cpp", "icl_core_logging/Thread.cpp"],
 [("per-stream pool of message buffers", "icl_core_logging/LogStream.cpp"), ("worker queue with semaphore", "icl_core_logging/LogOutputStream.cpp")],
 note="Real logging code under the controlled scheduler.")

prop("L04", "Shutting logging down writes every pending message and ends",
 "When logging is shut down, every message logged before has been written to its outputs, the output workers have ended, and no message is written twice; shutdown returns in every schedule, repeated initialisation and shutdown work, and logging after shutdown neither crashes nor blocks.",
 ["schedules", "histories"], "all schedules of a shutdown against pending messages and workers, up to a preemption bound, and every short start/stop history",
 "there is no test of shutdown",
 ["icl_core_logging/LoggingManager.cpp", "icl_core_logging/LogOutputStream.cpp", "icl_core_logging/Thread.cpp"],
 [("drain and join of the worker", "icl_core_logging/LogOutputStream.cpp")],
 note="Real logging code under the controlled scheduler.")

prop("L05", "Message text is kept intact up to the limit and cut there safely",
 "Whatever values are streamed or printed into a message, the text handed to the outputs is the concatenation of their textual forms, truncated at the fixed limit and never beyond it; texts, names and numbers of any size never overrun a buffer, an overlong message does not damage the next one, and every message starts empty.",
 ["inputs", "histories"], "every sequence of up to three insertions of values with textual lengths around every buffer boundary",
 "there is no test of message assembly",
 ["icl_core_logging/ThreadStream.h", "icl_core_logging/ThreadStream.cpp", "icl_core_logging/LogStream.h", "icl_core_logging/LogOutputStream.cpp"],
 [("bounded writes into the line buffer", "icl_core_logging/ThreadStream.cpp"), ("copy into the output's entry", "icl_core_logging/LogOutputStream.cpp")],
 note="All short insertion sequences over lengths around the limits, under ASan/UBSan.")

prop("L06", "Log file rotation never loses log lines",
 "Across any sequence of log lines, day changes, restarts and crashes, every line written (and flushed) is found exactly once in the current log file or in one of the rotated archives, in order; lines of the present day stay in the log file, those of earlier days are archived at the first activity of a new day; if an archive cannot be written the lines are kept; and exactly those rotated files of the log whose last write is older than the configured number of days are deleted, never the log file or a file of another name.",
 ["histories", "fault_sequences"], "every history of writes, day changes and restarts to a depth with every single failure of the archive step",
 "there is no test of log rotation",
 ["icl_core_logging/FileLogOutput.h", "icl_core_logging/FileLogOutput.cpp", "icl_core/os_fs.cpp"],
 [("rotation at the day boundary", "icl_core_logging/FileLogOutput.cpp")],
 note="Real file output on a scratch directory with a controlled clock and injected I/O failures.")

prop("L07", "UDP and database log records carry the message unaltered",
 "Every message sent to the UDP output arrives as one datagram whose fields, read as the SQL values the logging server takes them for, are exactly the message's fields, for every text including quotes and separators; every message given to the database output is stored as one row with exactly those field values, in order, also across a rotation of the database; a datagram or row that fails affects no other message.",
 ["inputs", "fault_sequences"], "every combination of field texts from an alphabet with quoting, separator and empty texts; every single failure of a database step",
 "there is no test of these outputs",
 ["icl_core_logging/UdpLogOutput.cpp", "icl_core_logging/SQLiteLogOutput.cpp", "icl_core_logging/SQLiteLogDb.cpp"],
 [("quoting of fields", "icl_core_logging/UdpLogOutput.cpp"), ("bound statement parameters", "icl_core_logging/SQLiteLogDb.cpp")],
 note="Real outputs with the socket calls intercepted and a real database file in a scratch directory.")

prop("L08", "Scoped timers, level names and standard outputs are exact",
 "A scoped timer writes exactly one record when its scope is left in any way, or when it is stopped, and none afterwards; the record has the timer's description and the nanoseconds since its start and the stream, level, place and names it was made with, and reports asked for in between change nothing. Level names convert to their level and back, any other text is refused and changes nothing. The outputs to standard output and standard error print exactly the formatted accepted messages, in their order and unaltered, and nothing on the other one.",
 ["histories", "inputs"], "every history of five operations on two timers with a settable clock, every timer macro left in every way, every level name with one character changed, every sequence of two messages over the standard outputs",
 "there is no test of scoped timers or the standard outputs",
 ["icl_core_logging/ScopedTimer.h", "icl_core_logging/LogLevel.cpp", "icl_core_logging/LogLevel.h", "icl_core_logging/StdLogOutput.cpp", "icl_core_logging/StdErrorLogOutput.cpp"],
 [("report at the end of the scope", "icl_core_logging/ScopedTimer.h"), ("level names", "icl_core_logging/LogLevel.cpp")],
 note="Real code over an interposed clock and captured standard outputs; complete enumeration.")

prop("L09", "The logging server stores every datagram as one row",
 "Whatever datagrams reach the logging server, alone or together, every record the UDP output has sent becomes exactly one row of its database with the message's fields unaltered, in the order of arrival. A datagram that is no record, or a row that cannot be stored, affects no other one, and nothing that was in the database before goes when the server is started again. The server listens where the output sends to by default, and does not start without a database file.",
 ["histories", "inputs", "fault_sequences"], "every pair of unusual field texts; every history of four arrivals (alone, together, malformed), locked databases and restarts on three kinds of existing databases",
 "there is no test of the logging server",
 ["uls/UdpLoggingServer.cpp", "uls/uls.cpp", "icl_core_logging/UdpLogOutput.cpp"],
 [("one insert per pending datagram", "uls/UdpLoggingServer.cpp"), ("configuration of the server", "uls/uls.cpp")],
 note="The real server on a stand-in for Qt (which is not installed), fed with the real output's datagrams; real SQLite database.")

# ---------------------------------------------------------------- plugins, performance monitor
prop("P01", "Plugin manager hands out exactly the plugins that were loaded",
 "For every set of plugin libraries in a directory, valid, invalid or duplicate, loading makes exactly the valid ones available under their identifiers, asking for an unknown identifier yields nothing and changes nothing, each library is loaded and released once, and destruction releases everything and ends.",
 ["configurations", "histories"], "every set of library kinds in a directory and every sequence of manager operations to a depth",
 "there is no test of the plugin component",
 ["icl_core_plugin/PluginManager.h", "icl_core_plugin/PluginManagerBase.cpp", "icl_core_plugin/Plugin.h"],
 [("directory scan and symbol lookup", "icl_core_plugin/PluginManager.h")],
 note="Real manager with small shared libraries built for the check; fresh process per execution.")

prop("P02", "Performance statistics match the recorded measurements",
 "For every history of measurements, the reported count, average and listed values per named timer are exactly those recorded since the timer was enabled, measurements of one name never affect another, a disabled monitor or name records nothing and reporting on unknown names yields empty statistics without failure.",
 ["histories"], "every operation sequence to a depth over two prefixes and two names with controlled time",
 "there is no test of the performance monitor",
 ["icl_core_performance_monitor/PerformanceMonitor.h", "icl_core_performance_monitor/PerformanceMonitor.cpp"],
 [("buffers of recorded events per name", "icl_core_performance_monitor/PerformanceMonitor.cpp")],
 note="All operation sequences to the stated depth with a controlled clock against a reference record.")

prop("P03", "The test runner reports success exactly if every test passed",
 "Whatever the results of the registered tests are (passing, failing, throwing any exception, failing while being prepared or cleaned up) and whichever form of output is asked for, every test runs exactly once, nothing a test throws leaves the runner, the runner's result is zero exactly if all tests passed, and the report tells for each test its own result.",
 ["inputs", "configurations"], "every combination of six kinds of results in up to two suites of two tests, in all three output forms",
 "a runner that calls a failure a success makes every other test worthless; its own tests only ever see tests that pass",
 ["icl_core_testsuite/test_suite.cpp", "icl_core_testsuite/TestListener.cpp", "icl_core_testsuite/TestListener.h"],
 [("verdict of the runner", "icl_core_testsuite/test_suite.cpp"), ("line of each test", "icl_core_testsuite/TestListener.cpp")],
 note="Complete product, every execution in a process of its own.")

prop("D01", "Compatibility names of the core do what the current names do",
 "Code written against the old names of the core library keeps its meaning: for every operation that still has an old name (other capitalisation, t-prefixed types, old header) the old name links, takes the same defaults, has the same effect, yields the same value and fails in the same way as the current name, for all arguments and in all states.",
 ["inputs", "histories"], "all old names of times, strings, enumerations, bits, lists, schemes, sequence numbers and system wrappers over boundary arguments; sequence-number orbits",
 "no test uses the old names; a wrapper that forwards to the wrong overload, swaps arguments or is never instantiated compiles",
 ["icl_core/TimeBase.cpp", "icl_core/TimeSpan.cpp", "icl_core/TimeStamp.cpp", "icl_core/StringHelper.cpp", "icl_core/SchemeParser.cpp", "icl_core/SequenceNumber.h", "icl_core/os_time.h", "icl_core/os_string.h", "icl_core/Deprecate.h"],
 [("forwarding of times", "icl_core/TimeStamp.cpp"), ("forwarding of sequence numbers", "icl_core/SequenceNumber.h"), ("forwarding of texts", "icl_core/StringHelper.h")],
 note="Complete products of boundary arguments; value, exception kind and effect of both names compared.")

prop("D02", "Compatibility names of the configuration do what the current names do",
 "Code written against the old names of the configuration library keeps its meaning: any history of operations on trees, files, parameters, the command line and the configuration has the same results, the same output, the same files and the same failures whether it is written with the old or with the current names.",
 ["histories", "inputs", "configurations"], "all histories to depth 2 (3) of 34 tree operations, all path, list, parameter, command-line and configuration operations over small vocabularies, each executed in both spellings",
 "no test uses the old names",
 ["icl_core_config/AttributeTree.cpp", "icl_core_config/AttributeTree.h", "icl_core_config/Config.h", "icl_core_config/ConfigManager.cpp", "icl_core_config/ConfigIterator.cpp", "icl_core_config/GetoptParser.cpp", "icl_core_config/GetoptParameter.cpp"],
 [("forwarding of tree operations", "icl_core_config/AttributeTree.cpp"), ("forwarding of configuration reads", "icl_core_config/Config.h"), ("forwarding of the command line", "icl_core_config/GetoptParser.cpp")],
 note="The harness body is compiled twice, once per spelling, and its transcripts are compared.")

prop("D03", "Compatibility names of the logging do what the current names do",
 "Code written against the old names of the logging library keeps its meaning: any history of starting, configuring, writing to and shutting down the logging yields the same messages with the same levels, origins and formats, the same output and the same failures whether it is written with the old or with the current names, default arguments included.",
 ["histories", "inputs", "configurations"], "all combinations of levels, formats, stream states, writes, manager operations (depth 2, 3 when thorough) and command lines, each executed in both spellings in processes of their own",
 "no test uses the old names",
 ["icl_core_logging/LogOutputStream.cpp", "icl_core_logging/LogStream.cpp", "icl_core_logging/ThreadStream.cpp", "icl_core_logging/ThreadStream.h", "icl_core_logging/LoggingManager.cpp", "icl_core_logging/Logging.cpp", "icl_core_logging/LogLevel.cpp", "icl_core_logging/Semaphore.cpp"],
 [("forwarding of outputs", "icl_core_logging/LogOutputStream.cpp"), ("forwarding of writes", "icl_core_logging/ThreadStream.cpp"), ("forwarding of the manager", "icl_core_logging/LoggingManager.cpp")],
 note="The harness body is compiled twice, once per spelling; transcripts include everything printed.")

prop("D04", "Compatibility names of the threads do what the current names do",
 "Code written against the old names of the thread library keeps its meaning: locking, waiting, starting, stopping, joining, cancelling and periodic waiting return the same results after the same time, with the same effect on other threads, whether they are written with the old or with the current names.",
 ["histories", "inputs"], "all histories to depth 3 (4) of 12 thread operations, all lock and semaphore operations against a lock held or a unit posted by another thread, periods and changes of periods, under a virtual clock",
 "no test uses the old names, and durations cannot be compared exactly on a real clock",
 ["icl_core_thread/Mutex.cpp", "icl_core_thread/RWLock.cpp", "icl_core_thread/Sem.cpp", "icl_core_thread/Thread.cpp", "icl_core_thread/PeriodicThread.cpp", "icl_core_thread/ActiveObject.h", "icl_core_thread/Common.h"],
 [("forwarding of thread operations", "icl_core_thread/Thread.cpp"), ("forwarding of lock operations", "icl_core_thread/RWLock.cpp"), ("forwarding of semaphore operations", "icl_core_thread/Sem.cpp")],
 note="Histories enumerated completely; both spellings compared in the schedule without preemptions (T01-T10 explore the schedules of the current names).")
prop("D05", "Compatibility names of the plugins do what the current names do",
 "Code written against the old names of the plugin framework keeps its meaning: search paths, initialisation (eager or lazy, recursive or not, and its defaults), listing, looking up and creating plugins, static plugins, error messages and what a derived manager may use do the same whether they are written with the old or with the current names, including what is loaded, created, destroyed and reported.",
 ["histories", "inputs"], "all histories to depth 3 (4) of 10 manager operations after 4 set-ups, and to depth 2 (3) of 9 operations of a derived manager, over directories with working, foreign and broken plugin libraries",
 "no test uses the plugin framework or its old names",
 ["icl_core_plugin/PluginManager.h", "icl_core_plugin/PluginManagerBase.cpp", "icl_core_plugin/tPluginManager.h", "icl_core_plugin/tPluginManagerBase.h"],
 [("forwarding of manager operations", "icl_core_plugin/PluginManager.h"), ("forwarding of paths and messages", "icl_core_plugin/PluginManagerBase.cpp")],
 note="Histories enumerated completely on the real manager with real shared libraries, each spelling in a process of its own.")
