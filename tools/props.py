# Source of properties.jsonl and of the notes in MANIFEST.json (tools/gen.py).
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, na="", state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), tech=tech, note=note, na=na)
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

CN = ("Every execution is the real code (compiled from the working tree) under a controlled scheduler. Exhaustive for the listed driver programs up to the stated number of "
      "deviations (pre-emptions, early time-outs, spurious wake-ups); sequentially consistent memory plus a happens-before race detector. Trusts the engine's model of the pthread calls it replaces.")
prop("C01", "Thread queues behave as one atomic FIFO for all concurrent users",
     "For any number of threads writing, writing at the front, reading, polling, peeking, counting, flushing and clearing one inter-thread queue, there is a single order of these operations, consistent with real time, in which the queue acts as a FIFO. Every written element is handed to exactly one reader or discarded by exactly one clear (which also deletes it), and none is lost, duplicated or reordered.",
     ["schedules", "programs"], "all interleavings of all small multi-threaded programs over the queue operations, for every storage variant",
     "InterthreadTest runs one writer and one reader once with whatever schedule the kernel picks; the guarantee is over every interleaving of every mix of operations.",
     ["Interthread.h", "LinkedLists.h", "LinkedLists.cpp", "Threads.h", "Threads.cpp"],
     [("queue operations under one lock", "Interthread.h InterthreadQueue"), ("storage variants", "Interthread.h InterthreadQueue2, InterthreadQueueWithWait; LinkedLists.h")],
     "conc", CN)
prop("C02", "A reader never sleeps while its queue holds an element for it",
     "Whenever the system comes to rest, a thread is still waiting for an element of an inter-thread queue (any storage or priority variant) only if the queue is empty. This holds for every number of readers, writers and elements, also when waits end spuriously.",
     ["schedules", "programs"], "all interleavings of several blocked readers with several writers, with and without spurious wake-ups",
     "A lost wake-up needs a write exactly between a reader's test and its wait, or several sleepers and one signal; the tests have one reader and never assert on liveness.",
     ["Interthread.h", "Threads.h", "Threads.cpp"], [("signal on write, re-test in a loop", "Interthread.h read()/write()"), ("condition variable wrapper", "Threads.cpp Signal")],
     "conc", CN + " A lost wake-up shows as a deadlock of the explored execution.")
prop("C03", "A timed read waits its full time-out, no longer, and never misses an element",
     "A read with a time-out from any inter-thread queue or map returns an element as soon as one is available, and otherwise returns nothing once its time-out has passed: at most 2 ms earlier and never later, for every time-out value, starting instant and pattern of wake-ups. A zero time-out never waits.",
     ["schedules", "inputs"], "all interleavings and clock advances for time-outs from negative to 32-bit maximum and start instants around a second boundary",
     "Tests use one or two time-outs on a real clock with generous slack; the failures need a start instant near a second's end, a huge time-out, or unrelated wake-ups in between.",
     ["Interthread.h", "Threads.cpp", "Timeval.h", "Timeval.cpp"], [("deadline loop", "Interthread.h read(unsigned)"), ("deadline computation", "Timeval.cpp Timeval::future, Timeval::remaining"), ("timed condition wait", "Threads.cpp Signal::wait")],
     "conc", CN + " Time is virtual, so early and late are exact.")
prop("C04", "A thread can wait for either of two connected queues",
     "When two queues are connected, a thread waiting for either of them returns as soon as either holds an element, with its time-out honoured as for one queue, and never sleeps over an element in one of them. While one thread at a time waits, both queues keep their single-queue guarantees (order, timed reads, exclusive iteration over their elements).",
     ["schedules", "programs"], "all interleavings of a waiter on two connected queues with writers on both and with iteration",
     "No test drives connected queues.", ["Interthread.h"], [("shared lock and signal of connected queues", "Interthread.h iqConnect / iqWaitForEither / ScopedIterator")],
     "conc", CN)
prop("C05", "Waiting for a queue to drain ends exactly when it has drained",
     "A thread waiting until a queue has at most a given number of elements does not return before the queue has been that short, and does not stay blocked when the queue is that short and at rest. This holds for any number of such waiters with different marks and for every way of emptying the queue.",
     ["schedules", "programs", "inputs"], "all interleavings of waiters with different marks and consumers using every removal operation, with spurious wake-ups",
     "No test waits for a queue to drain.", ["Interthread.h", "Threads.h"], [("drain signal on every removal", "Interthread.h InterthreadQueueWithWait")], "conc", CN)
prop("C06", "The thread-safe map is atomic, wakes its waiters and owns its values",
     "Concurrent writes, reads, polls, timed reads, tests, counts and removals on the inter-thread map are equivalent to some sequential order consistent with real time. A blocked read of a key returns as soon as the key is present, and every value the map owns is deleted exactly once: when removed, replaced by another or when the map dies, even if its destructor uses the map.",
     ["schedules", "programs"], "all interleavings of all small multi-threaded map programs",
     "InterthreadTest runs one writer and one reader once; replacement, several waiters on different keys and ownership are not driven.", ["Interthread.h", "Threads.h"],
     [("map under one lock with broadcast", "Interthread.h InterthreadMap, InterthreadMap1")], "conc", CN)
prop("C07", "The inter-thread priority queue always yields the most urgent element",
     "Under every schedule a read of the inter-thread priority queue returns an element that no other present element should precede, each element is returned exactly once, and blocked and timed reads behave as for the plain queue.",
     ["schedules", "programs"], "all interleavings of readers and writers and all write orders of small element sets",
     "No test drives the priority queue with more than one schedule.", ["Interthread.h"], [("heap ordered by the caller's comparison", "Interthread.h InterthreadPriorityQueue, PointerCompare")], "conc", CN)
prop("C08", "The binary semaphore never loses a post or lets two through on one",
     "A binary semaphore is up after a post until the next successful get or poll takes it down, in some order of all operations consistent with real time. So no get or poll succeeds without a post since the previous success, and no thread stays blocked in a get while the semaphore is up.",
     ["schedules", "programs"], "all interleavings of small programs of post, blocking get and poll, with several waiters",
     "No test uses the semaphore class.", ["Interthread.h", "Threads.h"], [("flag guarded by a lock and signal", "Interthread.h Semaphore")], "conc", CN)
prop("C09", "A mutex is held by one thread at a time, recursively, with a true count",
     "At most one thread is inside a mutex at any time, however it was taken (plain, with a source location, tried, or timed), and its owner can always take it again and must release it as often. A try never waits, a timed lock gives up only after its full time-out and only then, and the lock count seen by the owner equals its nesting depth; the owner's description of the mutex gives that count and names the places where it was taken.",
     ["schedules", "programs"], "all interleavings of two and three threads over every way to lock and every nesting, with a virtual clock",
     "ThreadTest runs a fixed set of threads on one mutex with kernel scheduling and has no timed locks or counts.", ["Threads.h", "Threads.cpp", "Timeval.cpp"],
     [("recursive pthread mutex", "Threads.cpp Mutex"), ("count and locker table", "Threads.cpp Mutex::lock/trylock/timedlock/unlock"), ("one-second report before blocking", "Threads.cpp Mutex::lock")], "conc",
     CN + " The diagnostic text printed after a second of blocking reads the holder's fields unlocked by design (documented in the source) and is excluded from race reporting.")
prop("C10", "Scoped locks hold and release exactly their mutexes and cannot deadlock",
     "Inside the scope of a scoped lock of one, two or three mutexes the calling thread holds each of them, and on leaving the scope by any path each is left as the thread had it on entry. Threads locking overlapping sets in any argument order, with any of them owned beforehand, never deadlock.",
     ["schedules", "programs"], "all interleavings of threads locking all orders and overlaps of three mutexes, all pre-owned sets, all exits",
     "No test takes several mutexes.", ["Threads.h", "Threads.cpp"], [("try-and-back-off acquisition", "Threads.cpp ScopedLockMultiple"), ("RAII release", "Threads.h ScopedLock")], "conc", CN)
prop("C11", "The read/write lock admits many readers or one writer",
     "At every moment a read/write lock is held by any number of readers or by a single writer, never both. A try succeeds exactly when this rule allows it and never waits, readers can hold the lock together, and releasing the last hold lets a waiting writer in.",
     ["schedules", "programs"], "all interleavings of three threads using every way to lock", "No test uses the read/write lock.", ["Threads.h", "Threads.cpp"],
     [("pthread rwlock wrapper", "Threads.h RWLock")], "conc", CN)
prop("C12", "Signals wake waiters, release the mutex meanwhile and return with it held",
     "A thread waiting on a signal gives up the mutex for as long as it waits and holds it again when the wait returns, with correct lock counts for everyone throughout. One signal wakes at least one waiter, a broadcast wakes all, none is lost when sent after the wait began, and a timed wait returns at its time-out if nothing woke it, at once if the time-out is not positive.",
     ["schedules", "inputs"], "all interleavings of waiters and signallers, time-outs of every magnitude, spurious wake-ups", "ThreadTest never waits on a signal with competing waiters or a time-out.",
     ["Threads.h", "Threads.cpp", "Timeval.cpp"], [("condition variable wrapper", "Threads.h, Threads.cpp Signal")], "conc", CN)
prop("C13", "A started thread runs its task exactly once and join waits for it",
     "Starting a thread runs the given task exactly once with the given argument, seeing everything the starter wrote before, whichever way it is started. Joining returns only after the task has ended, makes its effects visible, and leaves the thread object ready to be started again or destroyed.",
     ["schedules"], "all interleavings of up to three threads, every way to start, every join order, nesting, restart and unused objects", "ThreadTest starts threads under one schedule only and does not check visibility.",
     ["Threads.h", "Threads.cpp"], [("argument hand-over and start", "Threads.cpp Thread::start, thread_main"), ("join", "Threads.h Thread::join")], "conc", CN)
prop("C14", "Reference-counted objects die exactly when their last pointer goes",
     "An object held by reference-counting pointers is deleted exactly once, at the moment the last pointer to it is cleared, reassigned or destroyed, in any sequence of pointer operations (including self-assignment, raw pointers, and pointers that belong to the objects themselves) and when threads drop and copy their own pointers concurrently. Its reported count is the number of pointers to it.",
     ["schedules", "programs"], "all interleavings of two and three threads over all pointer operations, and all operation sequences on three pointers and two objects", "No test exercises the reference-counting pointers.",
     ["Utils.h", "Utils.cpp"], [("count under a mutex, delete at zero", "Utils.cpp RefCntBase::decRefCnt"), ("pointer operations", "Utils.h RefCntPointer")], "conc", CN)
SQ = ("Real code built with AddressSanitizer; exhaustive within the stated sizes, compared with an independently written reference. Executions are explored in full, nothing is sampled; beyond the bounds nothing is claimed.")
prop("C15", "The linked lists keep every element once, in order, and leak no nodes",
     "The pointer FIFO, the intrusive single-link list and the owning pointer list hand back exactly the elements put in, each once, in the order their front and back insertions imply. Size, empty, front and back always agree with the contents, an empty list gives nothing, elements can be reused after removal, and list nodes are freed.",
     ["programs"], "all operation sequences on each list up to a depth, with reusable elements", "The lists are only used indirectly by the queue test, with one order of operations.",
     ["LinkedLists.h", "LinkedLists.cpp"], [("intrusive and wrapping lists", "LinkedLists.h SingleLinkList, PointerFIFO; LinkedLists.cpp")], "seq", SQ)
prop("C16", "Deadlines, time differences and sleeps are exact at every instant",
     "An instant made any number of milliseconds ahead is exactly that far from now, is normalised (microseconds below one million) and has passed only once the clock is beyond it. Differences between any two instants, elapsed and remaining time are right to under a millisecond, antisymmetric and free of overflow, and sleeps last as long as asked.",
     ["inputs"], "offsets from 0 to 2^32-1 ms from start instants at every kind of microsecond position; all pairs of a grid of instants up to 2^32 s; all sequences of clock steps", "TimevalTest prints a few differences on the real clock.",
     ["Timeval.h", "Timeval.cpp", "Utils.cpp"], [("offset normalisation", "Timeval.cpp Timeval::future"), ("difference", "Timeval.cpp Timeval::delta, elapsed, remaining, passed"), ("sleeps", "Timeval.cpp msleep, Utils.cpp sleepf")], "seq", SQ + " Sleeps are bounded to 4000 s (usleep takes 32 bits); the clock is virtual.")
prop("C17", "Times are written as the right ISO date and time in every zone",
     "Every time since 1970 is written as its correct ISO 8601 UTC (ending in Z) or local date and time, by both forms of the function. Time stamps show the current local time to a tenth of a second, rounded down, cut on the left to the requested width, with the date if asked; instants and timespecs print their exact value.",
     ["inputs"], "every third day (thorough: every day) to the year 2125 at five times of day in five zones; summer time changes, instants to the year 9999; all widths and boundary instants", "TimevalTest prints but does not check one date.",
     ["Timeval.cpp", "Timeval.h", "Utils.cpp"], [("ISO formatting", "Timeval.cpp Timeval::isoTime"), ("time stamps", "Utils.cpp timestr")], "seq", SQ + " The reference counts days itself.")
prop("C32", "Bit fields are read and written exactly, in both bit orders",
     "Filling, writing, appending, peeking and reading a field of 0 to 64 bits at any position of a bit vector, most or least significant bit first, transfers exactly those bits, advances the index by the field's length and changes no other element. Values wider than the field are cut to it, and of every element only the lowest bit counts.",
     ["inputs", "programs"], "every position and length in vectors of every size to 26 and around 64; all sequences of writes with every split of reads", "BitVectorTest writes and reads a handful of fields.",
     ["BitVector.h", "BitVector.cpp"], [("field access", "BitVector.cpp peekField, peekFieldReversed, fillField, fillFieldReversed, readField, writeField")], "seq", SQ)
prop("C33", "Packing, unpacking and hex text of bit vectors are inverses",
     "Packing any bit vector into bytes gives the left-aligned zero-padded bytes of its bits, and unpacking them restores it, also for lengths that are no multiple of 8. The hex text of a vector of any length, whose last digit has the bits left over, reads back as the same vector; malformed hex text, also with blanks, is refused, and nothing outside the given buffers is touched.",
     ["inputs"], "every vector to 13 bits (thorough 17), single-bit patterns of every size to 140, every text to 4 characters", "BitVectorTest packs one or two vectors.",
     ["BitVector.h", "BitVector.cpp"], [("packing", "BitVector.cpp pack, unpack, packToString"), ("hex text", "BitVector.cpp hex, unhex, hexstr")], "seq", SQ)
prop("C34", "Parity codes divide correctly and detect every small error",
     "The parity word, the syndrome and the written parity of any data under any generator polynomial up to 63 bits are those of binary polynomial division. An intact code word has the expected syndrome, and a code word with an error that the polynomial does not divide does not.",
     ["inputs"], "every polynomial to degree 6 (8) with every data word to 7 (10) bits; the GSM codes with all one- and two-bit errors", "BitVectorTest computes one parity word without an expected value.",
     ["BitVector.h", "BitVector.cpp"], [("generator registers", "BitVector.h Generator; BitVector.cpp Generator"), ("parity", "BitVector.cpp Parity, syndrome, parity")], "seq", SQ)
prop("C35", "Vectors alias, copy and own memory exactly as documented",
     "After any sequence of constructing, assigning, aliasing, segmenting, cloning, concatenating, moving, resizing and writing vectors, each vector has the contents and length its operations imply: owners have their own storage, aliases and segments share the storage they were cut from. Every buffer is freed exactly once and never used after that.",
     ["programs"], "all operation sequences on two and three vectors (plain and bit vectors) up to a depth, with AddressSanitizer", "VectorTest runs a single sequence and prints.",
     ["Vector.h", "BitVector.h", "BitVector.cpp"], [("ownership and aliasing", "Vector.h Vector, clone, segment, copyTo; VectorBase in BitVector.h")], "seq", SQ)
prop("C36", "Whole-vector operations and soft bits follow their definitions",
     "Inverting, reversing, mapping and unmapping through a permutation, comparing, summing, printing, puncturing and repairing any bit vector give exactly the elements their definitions name. Soft vectors slice at one half, convert to and from bits without loss, and report the energy and signal-to-noise ratio of their definition.",
     ["inputs"], "every vector to 12 (17) bits, every permutation to 5 (7) positions, every puncturing pattern to 9 (13) bits, soft vectors over a value grid", "BitVectorTest prints some results for a human to read.",
     ["BitVector.h", "BitVector.cpp", "Vector.h"], [("vector operations", "BitVector.cpp invert, reverse8, LSB8MSB, map, unmap, copyPunctured"), ("soft bits", "BitVector.cpp SoftVector")], "seq", SQ)
prop("C37", "Hex and base64 encoding round-trip any data and report bad input",
     "Encoding any binary data as hex or base64 gives the standard text, and decoding that text, with white space anywhere and hex digits in either case, gives the data back without an error. A wrong character, an odd number of hex digits, a lone base64 character or data after the end is reported. 128-bit and 32-bit numbers survive their hex text form.",
     ["inputs"], "all data to 2 bytes, 3 bytes over 40 values (thorough: 256 in the third), every length to 200, every wrong byte at every position", "UtilsTest does not exercise the codecs.",
     ["Utils.h", "Utils.cpp"], [("codecs", "Utils.cpp encodeToString, decodeToString"), ("wide numbers", "Utils.cpp stringToUint, uintToString")], "seq", SQ)
prop("C38", "String helpers split, replace, format and join without loss",
     "Splitting a string yields exactly its words, in order; the n-th word is found exactly; replacing puts the replacement at every non-overlapping occurrence and ends for every input. A formatted string of up to 5000 characters is complete, scanning assigns what it matched and nothing else, and first lines, joined strings and aligned tables contain every character that belongs.",
     ["inputs"], "all strings to 7..9 characters over small alphabets with all separators and slots; formatted strings of every length to 5000; all tables to 3x3", "UtilsTest checks a few replacements and prints the rest.",
     ["Utils.h", "Utils.cpp"], [("string helpers", "Utils.cpp cstrSplit, stringSplit, cstrGetArg, replaceAll, format, myscanf, firstlines, stringcat, printPrettyTable")], "seq", SQ + " The rest-of-string content of cstrSplit's last slot is left open.")
prop("C39", "URL encoding is reversible and leaves only safe characters",
     "The URL encoding of any byte string consists of letters, digits, -_.!~'() and percent escapes of two upper-case hex digits, and decoding the escapes gives the original string back. Characters that need no escape are passed through.",
     ["inputs"], "all strings of two bytes, alone and embedded; long strings of every length to 300", "URLEncodeTest prints one encoded string without an expected value.",
     ["URLEncode.h", "URLEncode.cpp"], [("escaping", "URLEncode.cpp URLEncode")], "seq", SQ)
prop("C40", "Fixed-point arithmetic is exact and saturates at its limits",
     "Sums, differences, products, quotients, comparisons and assignments of 15.16 fixed-point numbers are those of exact arithmetic rounded down to 1/65536 (quotients and products with floats towards zero), and saturate at the largest and smallest value when the result does not fit. Integers and floats convert to the nearest representable value and back without loss.",
     ["inputs"], "all pairs of some 350 (thorough 2000) boundary values, all 16-bit integers, a grid of all representable floats", "F16Test compares a few products of random small numbers.",
     ["F16.h"], [("arithmetic with saturation", "F16.h F16"), ("rounding", "F16.h _f16_round")], "seq", SQ)
prop("C44", "Statistics, scalars, bit sets and object counters stay exact",
     "A statistic always reports the last, smallest, largest, average value and number of points it was given. Scalar wrappers start at their initial value and behave like their base types, bit sets hold exactly the bits set, a regular expression matches as its pattern says, and the leak counters equal the objects alive and created, copies included, also when threads create and destroy objects concurrently.",
     ["programs", "schedules"], "all value and operation sequences to a depth for every type; all interleavings of threads creating and destroying counted objects", "No test checks statistics or counters; RegexpTest matches two strings.",
     ["Utils.h", "Utils.cpp", "ScalarTypes.h", "MemoryLeak.h", "Regexp.h"], [("running statistics", "Utils.h Statistic"), ("initialised scalars", "ScalarTypes.h"), ("object counters", "MemoryLeak.h, Utils.cpp MemStats"), ("regular expressions", "Regexp.h")], "seq", SQ + " The threaded part runs under the controlled scheduler with the race detector.")
DB = ("Real code with AddressSanitizer on an in-memory sqlite file system written for these drivers (several connections, lock semantics, virtual clock). Exhaustive within the stated sizes; compared with an independent reference; nothing is sampled.")
prop("C18", "A configuration table behaves as a persistent map with schema defaults",
     "After any sequence of sets, removals, reads, purges and waiting, every key reads its last set value, otherwise its schema default, otherwise it is reported as missing with its name. Keys differing only in case are different keys; defines, typed reads, listing of all pairs, searching and the stored rows agree with that; a removal returns true exactly if the key was stored; a stored NULL counts as not set.",
     ["programs", "histories"], "all operation sequences to depth 3 (4) on sets of three keys, also on databases with existing, empty and NULL rows or without a table",
     "ConfigurationTest runs one sequence of sets and reads and only prints the results.",
     ["Configuration.h", "Configuration.cpp"], [("cached lookup with default", "Configuration.cpp ConfigurationTable::lookup"), ("set, remove, find, getAllPairs", "Configuration.cpp")], "seq", DB)
prop("C19", "Configuration text is data: any key, value or description is stored as given",
     "Any text without zero bytes can be a key, value, default or description. Setting, reading, listing, searching and removing it yields exactly that text back, also in the database, whatever quotes, SQL, column names, control or non-ASCII characters it contains and however long it is, and never touches another row.",
     ["inputs"], "all pairs of 66 awkward texts as key and value; as default, description and search pattern; every string to 3 (4) of 9 SQL-relevant characters", "ConfigurationTest sets only plain words and numbers.",
     ["Configuration.cpp", "sqlite3util.cpp"], [("SQL text construction", "Configuration.cpp set, remove, find, lookup; sqlite3util.cpp")], "seq", DB)
prop("C20", "Typed configuration reads convert the stored text faithfully",
     "A number read from a configuration value is the integer its text starts with (decimal, 0x hexadecimal or 0 octal, saturating, 0 if there is none), a boolean is whether that is non-zero, a float is its decimal value, and a vector holds one element per space-separated word in order. A number that is set as a number reads back unchanged.",
     ["inputs"], "every text to 4 (5) of 11 characters, numbers around every power of two in three notations, all lists to 4 numbers with all spacing", "ConfigurationTest reads a few small numbers and one list.",
     ["Configuration.cpp", "Configuration.h"], [("conversions", "Configuration.cpp ConfigurationRecord::number, floatNumber; getVector, getVectorOfStrings")], "seq", DB)
prop("C21", "Validation accepts exactly the values a key's type and range allow",
     "A value is accepted exactly if it is well formed for the key's type: one of the choices, a complete IP address, port, CIDR block, host:port, list of addresses, file path, a regular expression that compiles, a string matching the key's pattern, or a number within the key's range. Optional types also accept the empty text. Anything before or after the value, a sign or space, or an unknown key makes it invalid, and asking changes nothing.",
     ["inputs"], "every string to 4 (5) characters over five alphabets for each type; addresses and lists from 9 octets x 24 tails; all numbers around range ends; all fragments of choice lists", "No test calls the validation.",
     ["Configuration.cpp", "Configuration.h"], [("validators by type", "Configuration.cpp ConfigurationTable::isValidValue, isInValRange, isValidIP")], "seq", DB + " How numbers with leading zeros or a bare decimal point count is left open.")
prop("C22", "A configuration table can be shared by threads without locks of their own",
     "Any number of threads may get, set, remove, list, search, validate and purge on one table, with an update hook purging it, and use different tables at the same time. Every result is explained by some order of the operations consistent with real time, nothing deadlocks and no memory is accessed unordered.",
     ["schedules", "programs"], "all interleavings of two and three threads with one or two operations each, cached and uncached, with expiry and hook", "ConfigurationTest is single-threaded.",
     ["Configuration.h", "Configuration.cpp"], [("cache under mLock", "Configuration.cpp lookup, set, remove, purge, checkCacheAge")], "conc", CN + " sqlite itself is not instrumented: its calls are atomic steps, its own locks are modelled.")
prop("C23", "Acknowledged configuration changes survive failures; failed ones leave no trace",
     "If set or remove reports success the change is in the database and survives a crash at any later point; if it reports failure the old value is still stored and read. A crash in the middle leaves the state before or after the change. Up to four refusals of a lock are ridden out, a failure never leaves the database locked, and once the trouble is over reads give the stored values at once.",
     ["crash_points", "fault_sequences", "histories"], "every lock refusal (7 lengths), I/O error, full disk and failed allocation at every point of nine operations; every crash point of operation pairs with every pattern of lost and torn unsynced writes", "No test injects a fault or a crash.",
     ["Configuration.cpp", "sqlite3util.cpp", "sqlite3util.h"], [("retry loops", "sqlite3util.cpp sqlite3_prepare_statement, sqlite3_run_query"), ("cache updated after success", "Configuration.cpp set, lookup")], "fault", DB + " Crash model: synced writes survive, any subset of the others may be lost or torn at sector size, file creation and deletion take effect in order.")
prop("C24", "A configuration value read is never more than three seconds stale",
     "A read returns a value that the database held at some moment within the last three seconds and since the reading table's last own change of that key, purge or newer read. This holds for each of several tables however often any of them is used, and also when the clock is set back.",
     ["histories", "programs"], "all sequences to depth 4 (5) of reads, external writes, own writes, purges, waits of 1, 2 and 3 seconds and clock changes on one and two tables", "ConfigurationTest has no second writer and never lets time pass.",
     ["Configuration.cpp", "Configuration.h"], [("age-limited cache", "Configuration.cpp checkCacheAge, purge, lookup"), ("update hook", "Configuration.cpp setUpdateHook")], "seq", DB)
prop("C25", "The configuration schema is reported completely and truthfully",
     "The generated SQL executes and gives each schema key exactly one row with its default, static flag and description, leaving existing rows alone. The generated TeX lists each key once in the section of its visibility, with special characters escaped. Schema queries, similar keys, range ends and steps, cross checks and printed descriptions say about each key exactly what its definition says, each valid value and scope once.",
     ["inputs", "programs"], "schemas with all types and awkward texts on three kinds of database, all 64 sets of visibility levels, all 128 sets of overlapping names, every type x visibility x scope x flags, all pairs of range ends with steps, schemas to 301 keys and texts to 5000 characters", "No test calls the generators or descriptions.",
     ["Configuration.cpp", "Configuration.h"], [("generators", "Configuration.cpp getDefaultSQL, getTeX"), ("descriptions", "Configuration.cpp printKey, printDescription, typeToString"), ("schema queries", "Configuration.cpp getSimilarKeys, isStatic, crossCheck")], "seq", DB)
prop("C26", "Key=value lines parse exactly, and hash strings order and compare consistently",
     "Adding items and lines maps each text before the first equals sign to the text after it, the last one winning, and ignores words without one. Lookups say truthfully whether a key is there, numbers are the integer the value starts with, a missing key is reported by name, and no memory is lost. Hash strings are equal exactly if their texts are, and exactly one of equal, less and greater holds.",
     ["inputs", "programs"], "every line to 5 (7) of 6 characters, all sequences of 4 (5) items, every pair of strings to 2 (3) of 5 characters", "ConfigurationTest parses a single line.",
     ["Configuration.h", "Configuration.cpp"], [("parser", "Configuration.cpp SimpleKeyValue::addItem, addItems, getNum"), ("hash strings", "Configuration.h HashString; Configuration.cpp computeHash")], "seq", SQ + " Hash collisions of longer or non-ASCII strings are outside the claim.")
prop("C27", "The sqlite helpers find, return and store exactly what they are asked for",
     "Lookups, existence tests and row queries by text or number return exactly the stored values for any key text, tell absent rows, NULL values and failures apart as documented, and step through all rows. Attributes read back what was last set for any text. Commands report success exactly if they took effect, ride out up to four lock refusals, give up in bounded time, and never leave the database locked.",
     ["inputs", "fault_sequences"], "all 66 awkward texts as key, attribute and value, all lookup forms, all row counts and step counts, eleven commands with zero to seven lock refusals", "No test calls the sqlite helpers directly.",
     ["sqlite3util.h", "sqlite3util.cpp"], [("lookups and queries", "sqlite3util.cpp sqlite3_single_lookup, sqlQuery, sqlite3_exists"), ("attributes", "sqlite3util.cpp sqlite_set_attr, sqlite_get_attr")], "seq", DB)
prop("C28", "Log levels follow the configuration: per file, then default",
     "The log level of a source file is the value of its own setting Log.Level.<file> if that is set and not empty, otherwise of Log.Level. Every accepted level name means its syslog level; an unknown name counts as the schema's default, which is then stored and reported. A changed setting takes effect within about a thousand queries for every file, also when several threads query or a configuration update hook logs (which never deadlocks), and a log group has its own level, else that of the default group, else of its file.",
     ["histories", "schedules", "inputs"], "all sequences of setting, removing and querying levels of several files and groups to a depth, every level text, and all interleavings of querying and changing threads",
     "LogTest sets one level and prints a few lines; it never changes a level, queries a second file or uses threads.",
     ["Logger.h", "Logger.cpp"], [("level look-up with a per-file cache", "Logger.cpp gGetLoggingLevel, getLoggingLevel, lookupLevel"), ("groups", "Logger.h LogGroup")], "seq", DB + " 'About a thousand' is checked as 1100 queries. The threaded part runs under the controlled scheduler.")
prop("C29", "The alarm list holds the newest alarms in order, whatever logs them",
     "The list of alarms contains exactly the last Log.Alarms.Max records of level CRIT and above, oldest first, with their whole text, as of some order of all logging calls consistent with real time. Changing the maximum, logging from several threads and reading the list meanwhile never lose, repeat, reorder or tear a record and never deadlock, also when a configuration update hook raises the alarm.",
     ["histories", "schedules"], "all sequences of alarms, lower records and changes of the maximum; all interleavings of two and three logging and reading threads",
     "LogTest prints the list once after one alarm.", ["Logger.h", "Logger.cpp"], [("bounded list under a lock", "Logger.cpp addAlarm, gGetLoggerAlarms")], "conc", CN)
prop("C30", "Each enabled log record appears once and whole, disabled ones not at all",
     "A record whose level is enabled is given exactly once, with its text unchanged and its level and source place, to the system log and, when configured, to the log file and the console. A disabled record produces nothing and its arguments are not evaluated. Records of different threads are never mixed, torn, lost or doubled, whatever bytes and lengths they have.",
     ["inputs", "schedules"], "texts of many lengths and bytes at every level against every configured level and output; all interleavings of two and three logging threads, with early logging and hex dumps",
     "LogTest looks at none of the outputs.", ["Logger.h", "Logger.cpp"], [("record built by a stream, given out in its destructor", "Logger.cpp Log::~Log, LogEarly, gLogEarly"), ("LOG macros", "Logger.h")], "conc", CN + " syslog and the console are recorded at their libc calls.")
prop("C31", "Performance counters lose and invent no count",
     "After a commit a counter's stored value is the number of increments since it was created or cleared, a maximum is the largest value reported since then, and the times of the last clear and update are right; other rows are untouched. This holds for any names and indices, for any threads counting, clearing, creating and committing, across reopening, and when the database fails for a while: a failed operation changes nothing and no count is lost. The committing thread stops when told to.",
     ["programs", "schedules", "fault_sequences", "inputs"], "all operation sequences to depth 4 (5), 48 awkward names, index ranges to the largest number, every fault at every point of six operations, all interleavings of two and three threads with the committer",
     "The tests create a table and count a few times without looking at a value; no fault, thread or clear is checked.",
     ["Reporting.h", "Reporting.cpp"], [("batched increments", "Reporting.cpp incr, commit, reportingBatchCommitter"), ("immediate updates", "Reporting.cpp create, max, clear")], "seq", DB + " Counting a parameter never created, and counting and maximising one parameter, are left open. The threaded part runs under the controlled scheduler.",
     state=[("mBatch", "increments not yet stored", "Reporting.h ReportingTable")])
prop("C41", "Only one instance of a program runs, and its files last exactly as long as it",
     "Of all processes that register the same program at the same time or one after the other, at most one runs, and while it runs its pid file holds its process number and its registered files are not taken away. When it exits or is ended by a signal its pid file and exactly the files registered for removal are gone, and nothing of another instance. Signals that do not end a program leave all files. Different names never exclude each other, and an instance whose file cannot be written does not run.",
     ["schedules", "fault_sequences", "crash_points", "inputs"], "all interleavings of the file-system calls of up to three real processes that start, end, are signalled (every signal) or killed at every point; every failing system call; names of every length",
     "No test calls SelfDetect, which needs several processes and would write to /var/run.",
     ["SelfDetect.h", "SelfDetect.cpp", "UnixSignal.cpp", "Exit.h"], [("exclusive creation of the pid file", "SelfDetect.cpp RegisterProgram"), ("removal at exit and by signals", "SelfDetect.cpp Exit, RegisterFile")],
     "proc", "Real processes, stopped at every system call on watched paths by ptrace and interleaved exhaustively; /var/run is redirected to a scratch directory. A signal that arrives before RegisterProgram returns, children made by fork, and the file an instance killed by SIGKILL leaves are outside the claim.")
prop("C42", "Each handler of a signal runs once, in order; then its default action follows",
     "When a signal arrives, exactly the handlers registered for it are called, each once and in the order of registration, with its number, and the process then ends (or stops, or goes on) as that signal makes a process do by default. For the signals that dump core, a core file of exactly the configured name is asked for first, and system files are saved only if configured. Signals never registered keep their disposition, impossible signal numbers are refused, and threads may register while signals arrive.",
     ["inputs", "programs", "schedules"], "every signal with every list of up to three handlers and each core setting, a second signal during every handler, all registration sequences to a depth, all interleavings of registering threads",
     "No test uses UnixSignal.", ["UnixSignal.h", "UnixSignal.cpp"], [("handler lists per signal", "UnixSignal.cpp Register, Handler"), ("re-raise with the default action", "UnixSignal.cpp _sigHandler")],
     "seq", SQ + " Signals are sent to real child processes whose end is observed. The two signals the C library keeps for itself, and arrival inside a non-reentrant library call, are outside the claim.")
prop("C43", "Datagrams go whole and in order to exactly where they are sent",
     "A datagram of up to 1500 bytes written to a UDP or Unix socket arrives whole, once and in order at exactly its destination; an answer goes to the sender of the last datagram received. A non-blocking read without data returns at once, a timed read after exactly its time-out, a blocking one when data come. host:port texts resolve to exactly that address and port or are refused, also in several threads. No failure leaves a descriptor open, and none that is not the socket's own is ever closed.",
     ["histories", "inputs", "fault_sequences", "schedules"], "all sequences of 5 (6) socket operations between three sockets, all lengths to 1510, all short host:port texts and all ports, each system call failing at each point, all interleavings of two and three threads",
     "No test uses the sockets.", ["Sockets.h", "Sockets.cpp"], [("descriptor ownership", "Sockets.cpp open, close, destructor"), ("addresses", "Sockets.cpp resolveAddress, destination"), ("reads", "Sockets.cpp read, nonBlocking")],
     "seq", SQ + " Real loop-back and Unix sockets; waiting is on virtual time. Reads interrupted by signals, abstract Unix addresses and ports written with spaces or signs are outside the claim. The threaded part runs under the controlled scheduler.")
prop("C45", "Repeating any operation holds back no memory, descriptor, thread or statement",
     "However often an operation of the library is repeated, the memory, file descriptors, threads and database statements it holds on to stay bounded: also when the operation fails because a lock is refused, a file access fails, a disk is full, memory runs out or a system call fails. This covers table calls, counters, sockets, log records, text helpers, patterns, vectors, queues, maps, locks and threads. The configuration and counter tables themselves live as long as the process.",
     ["histories", "fault_sequences", "inputs"], "every operation on every class of argument, repeated, with every fault at every point, once and lasting",
     "Tests call an operation a few times and never look at what stays allocated; the leaks sit in failure branches they do not reach.",
     ["Configuration.cpp", "sqlite3util.cpp", "Reporting.cpp", "Sockets.cpp", "Logger.cpp", "Utils.cpp", "Threads.cpp", "Vector.h", "Regexp.h", "LinkedLists.h"], [("statement and value ownership", "sqlite3util.cpp, Configuration.cpp lookup"), ("descriptor ownership", "Sockets.cpp"), ("thread clean-up", "Threads.cpp Thread::start, Thread::join")],
     "fault", "Heap bytes (from the address sanitizer's allocator, SQLite's own included), descriptors and threads are compared before and after four further repetitions of each enumerated operation and fault; growth that needs more repetitions than that to show is outside the bound.")
prop("C46", "Helpers used by several threads on their own data do not disturb each other",
     "The helpers for text, time, encoding, tables, bit vectors, fixed-point numbers, patterns, statistics, key descriptions and SQL quoting may be used by several threads at once, each on its own data, from the first use on: every call returns exactly what it returns when the thread is alone, without any data race.",
     ["schedules", "programs"], "all interleavings (up to the deviation bound) of every pair of helpers in two threads and every helper in three threads, as the first ones used in a process",
     "The tests call the helpers from one thread; a hidden static buffer or a library call with static state shows only when two calls overlap.",
     ["Utils.h", "Utils.cpp", "Timeval.cpp", "URLEncode.cpp", "BitVector.h", "BitVector.cpp", "F16.h", "Regexp.h", "Configuration.cpp", "sqlite3util.cpp"], [("no shared buffers", "Utils.cpp, Timeval.cpp, URLEncode.cpp"), ("re-entrant library calls", "Utils.cpp timestr, stringSplit; Timeval.cpp isoTime"), ("tables filled before main", "Utils.cpp BaseNDecoder")],
     "conc", CN + " What C library functions read and write for the repository's code is seen by the race detector too; library functions with static results are replaced by equivalents whose static data are visible.")
prop("C47", "Console lines written by several threads stay whole and dated",
     "A line written with COUT or CERR (or between lockCout and unlockCout, lockCerr and unlockCerr) appears in one piece on its stream however many threads write: time, thread, for CERR the place in the source, and the text exactly as it was put together, ended by a newline and flushed. A number format chosen within one line does not leak into the next, the time lies within the call and never runs backwards from line to line, every line appears once and in its thread's order, and the console lock is free afterwards; lines may be written by a thread that already holds the lock.",
     ["schedules", "inputs"], "all interleavings (up to the deviation bound) of two and three writers, every kind of line on both streams, time passing at any point",
     "No test writes from two threads and looks at the result; torn lines show only when a switch falls between two parts of a line.",
     ["Threads.h", "Threads.cpp", "Timeval.cpp"], [("lockCout / unlockCout", "Threads.cpp"), ("COUT, CERR", "Threads.h"), ("gStreamLock", "Threads.cpp")],
     "conc", CN)
