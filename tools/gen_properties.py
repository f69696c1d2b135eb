#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json, sys

P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

p("P01", "A future delivers its promise's one outcome, once, to every waiter",
  "Every future obtained from a promise becomes ready exactly when its promise is fulfilled with a value, fulfilled with an exception, or abandoned (destroyed or overwritten unfulfilled, which the reader sees as a broken-promise error), and never otherwise. A reader that waits, whether it starts waiting before or after completion and on whichever thread, is woken and then obtains exactly that outcome, with everything the fulfilling thread wrote beforehand visible to it. Values and exceptions held by the shared state are destroyed exactly once, whether or not anyone reads them, also when constructing the value throws.",
  ["schedules", "histories", "inputs"],
  "All interleavings of one fulfilling and one or more waiting/consuming threads, all orders of take/set/wait/take-value/destroy/move-assign, value types including void, move-only and throwing-constructor types.",
  "TestFuture exercises a handful of fixed two-thread orders with trivial value types; it cannot see a lost wakeup, a missing happens-before edge, a leaked or doubly destroyed value, or a state that never becomes ready after a throwing constructor.",
  ["Future.h"],
  [("SharedState ready flag, mutex and condition variable", "src/Future.h SharedState*"),
   ("Promise destructor / move assignment completing an abandoned state", "src/Future.h Promise")],
  ["Promise::setValue/emplaceValue/setException", "Future::wait/isReady/takeValue/takeDirect"],
  [("shared state", "not ready / value / exception", "src/Future.h")])

p("P02", "Future continuations and packaged tasks run exactly once with the outcome",
  "A continuation attached to a future runs exactly once, on the completing thread or (if already complete) the attaching thread, and receives the antecedent in its completed state. The future returned by attaching the continuation carries what the continuation (or the future it returned) yielded or threw, chains of continuations propagate in order, and a packaged task's future carries what its callable returned or threw, with the callable invoked once. Captured state of continuations and tasks is released exactly once, also if the antecedent is abandoned.",
  ["schedules", "histories", "inputs"],
  "All races of attaching against completing, chain lengths, void/non-void/throwing continuations, abandoned antecedents.",
  "The tests attach either strictly before or strictly after completion on one thread; the attach/complete race, exceptions through chains and callable lifetime need schedules and histories.",
  ["Future.h"],
  [("continuation hand-over under the state mutex", "src/Future.h then/setContinuation"),
   ("PackagedTask result capture", "src/Future.h PackagedTask")],
  ["Future::then", "PackagedTask::operator()"])

p("P03", "The single-producer single-consumer ring is a bounded lossless FIFO",
  "The consumer of the circular buffer reads exactly the sequence of elements the producer wrote, in order, without loss, duplication, corruption or reading an element before it is completely written, across any number of wrap-arounds and for block as well as single-element transfers. The reported available data never exceeds what was written and not yet read, the reported free space never exceeds capacity minus that, and neither side ever touches a slot owned by the other.",
  ["schedules", "inputs", "histories"],
  "All interleavings of one producer and one consumer thread, all buffer sizes, transfer sizes and partial reads/writes, including producer and consumer callbacks that transfer fewer elements than offered.",
  "TestCircBufferSCSP uses a fixed size and fixed transfer pattern; wrap boundaries, partial transfers and memory ordering are schedule- and size-dependent.",
  ["CircBufferSCSP.h"],
  [("atomic available-data counter with acquire/release hand-over", "src/CircBufferSCSP.h"),
   ("wrap-around split into two contiguous parts", "src/CircBufferSCSP.h")],
  ["read/write operations and the buffer memory they touch"])

p("P04", "The multi-producer queue hands each pushed item over once, per-producer FIFO",
  "Every item pushed to the multi-producer single-consumer queue by any thread is popped exactly once, items of one producer come out in the order they were pushed, an item whose push was complete before another one began comes out first, and the queue yields nothing that was not pushed. Everything the producer wrote to an item before pushing it is visible to the consumer that pops it, and a popped item may be freed or pushed again immediately.",
  ["schedules", "histories"],
  "All interleavings of many producers with one consumer, item recycling, empty/non-empty transitions.",
  "There is no runnable test of this header at all; its correctness is entirely about memory ordering and interleavings at the empty/one-element boundary.",
  ["MpscWaitFreeSemiIntrusiveQueue.h"],
  [("atomic head exchange plus stub node", "src/MpscWaitFreeSemiIntrusiveQueue.h")],
  ["push", "pop"])

p("P05", "Thread pools run every submitted task exactly once, in order, until stopped",
  "Every task submitted to a thread pool runs exactly once, unless the pool is stopped before the task's turn comes; tasks begin in submission order (with one worker they also run in that order, one at a time), and tasks submitted from inside tasks are accepted likewise. Stopping and joining returns once running tasks are finished, after which no task starts and no worker runs; tasks that never ran are destroyed exactly once together with the pool. The participate-once and participate-for-a-while interfaces obey the same rules for the tasks they run.",
  ["schedules", "histories", "configurations"],
  "All interleavings of submitters, workers, participants and stoppers; worker counts; re-entrant submission and resubmission; pending backlogs of any length at destruction.",
  "None of the thread pool headers has a runnable test; races between last submit, wakeup and stop only appear under particular schedules.",
  ["ThreadPool.h", "SimpleThreadPool.h", "ParticipatoryThreadPool.h"],
  [("two-lock task queue with dummy tail", "src/ParticipatoryThreadPool.h"),
   ("stop flag and worker join", "src/ThreadPool.h")],
  ["submit", "task execution", "stopAndJoin"])

p("P06", "Tasks of one strand never overlap and run in submission order",
  "Tasks submitted to a strand run one at a time and in the order submitted, each exactly once, whatever the number of pool workers, the number of strands and the submitting threads; each task sees the memory effects of the tasks before it. Stopping a strand returns only when no task of it is running and none starts afterwards, and other strands on the same pool are not held up for ever by one busy strand.",
  ["schedules", "histories"],
  "All interleavings of several submitters, several strands and several workers, including submission from inside a strand task.",
  "There is no runnable test; mutual exclusion and ordering across workers are schedule properties.",
  ["Strand.h", "ParticipatoryThreadPool.h"],
  [("single in-flight slice per strand", "src/Strand.h")],
  ["submit", "task begin/end"])

p("P07", "The ticket spin lock is mutually exclusive, fair and publishes writes",
  "At most one thread holds the lock at a time, a thread that unlocks makes everything it wrote in the critical section visible to the next holder, and every thread that asks for the lock eventually gets it as long as holders release it. Threads obtain the lock in the order in which they asked for it, over arbitrarily long histories.",
  ["schedules", "histories"],
  "All interleavings of any number of contending threads over arbitrarily long histories.",
  "There is no runnable test; mutual exclusion and memory ordering are schedule properties.",
  ["TicketSpinLock.h", "Spinwait.h"],
  [("ticket and now-serving counters", "src/TicketSpinLock.h")],
  ["lock", "unlock"])

p("P08", "Latches, stoppable waits and start/stop threads lose no wakeup",
  "A latch releases every waiter once and only once its count has been taken down to zero, a notification delivered to a simple waiter is never lost, and a stop request is observed by every thread that afterwards tests or waits for it. A thread object that is started, stopped and destroyed in any order starts its function at most once, never before it was started, and its destructor waits for the function to return. A thread released from waiting on a latch or simple wait may, if no other thread still waits or has yet to count down or notify, destroy it at once. Whatever a thread did before counting down, notifying or starting is visible to the threads this releases.",
  ["schedules", "histories"],
  "All interleavings of notifier(s) and waiter(s), notify-before-wait and wait-before-notify, repeated rounds, start/stop/destroy orders.",
  "There are no tests for these headers; lost wakeups and stop/start races need particular schedules.",
  ["Latch.h", "SimpleWait.h", "Stoppable.h", "NoStartThread.h"],
  [("mutex-protected counters/flags with condition variables", "src/Latch.h, src/SimpleWait.h, src/Stoppable.h"),
   ("start promise", "src/NoStartThread.h")],
  ["wait/notify/stop/start calls and their return"])

p("P09", "Timeouts fire exactly once, not early, in order, and never after the stop",
  "A task given to the timeouts thread with a delay runs exactly once on the timeouts thread, not before its delay has elapsed, and tasks run in order of their deadlines, equal deadlines in order of submission. A later submission with an earlier deadline is not delayed by pending later ones, a task may submit further tasks or itself again, and a task may stop the thread, after which no further task starts. Destroying the thread object drops what has not run, no task runs after that, and every task object is destroyed exactly once.",
  ["schedules", "histories", "inputs"],
  "All interleavings of submitters and the timer thread, all delay patterns, self-rescheduling, stop at any moment.",
  "TestTimeoutsThread samples a single wall-clock pattern; early/late wakeups, ordering among equal deadlines and stop races need many patterns and schedules.",
  ["TimeoutsThread.h", "Durations.h"],
  [("deadline-ordered multiset and condition variable wait_until", "src/TimeoutsThread.h")],
  ["submit", "task execution time and order"])

p("P10", "The event loop delivers each readiness event to its own handler until stopped",
  "While the event loop runs, every descriptor registered and armed with a handler whose requested condition holds leads to that handler being called with the condition bits that hold, once per arming; nothing is delivered for a descriptor that was removed, disabled, not yet armed again or is not ready, and handler calls of one loop never overlap. Stop requests and waiting threads always wake the loop, whatever amount of wakeups is pending; the run method returns after a stop request and not before, and once a running loop was stopped no handler is called any more. Waiting for the end of a loop iteration returns only when the handler calls in progress or already collected are finished, so a handler may be destroyed after its descriptor was removed and such a wait, and it returns also when the loop is not running or exits meanwhile. Failing operations report the documented exception with the cause, change nothing and leak no descriptor.",
  ["schedules", "histories", "fault_sequences"],
  "All insert/modify/disable/remove orders, numbers of ready descriptors per iteration, stop and wait storms from several threads, pending wakeup byte counts, interrupted and failing system calls.",
  "The header has no tests; missed wakeups, stale dispatch and pipe-flush boundaries depend on timing and history.",
  ["EventLoop.h", "SingleThreadEventLoop.h"],
  [("epoll set plus self-pipe wakeup", "src/EventLoop.h"),
   ("per-iteration batch dispatch", "src/EventLoop.h")],
  ["handler invocations", "run/stop/wait return"])

p("P11", "Live identifiers from one pool are pairwise distinct and are recycled on release",
  "At any moment all identifiers held from one pool are distinct and inside the pool's range, whichever threads reserved them and however holders were copied about, moved or destroyed. Reserving succeeds as long as fewer identifiers are held than the range has, and reports exhaustion with the documented exception (leaving the pool usable) otherwise; a released identifier becomes available again exactly once. A holder keeps its identifier reserved until the holder itself goes away, also when the pool object is destroyed first.",
  ["schedules", "histories", "inputs"],
  "All histories of reserve/release/move/swap/self-move over all supported range types, from several threads, driven to and across exhaustion.",
  "TestIdentifierPool walks one fixed single-threaded history with small ranges.",
  ["IdentifierPool.h"],
  [("free-list/next counter shared state", "src/IdentifierPool.h")],
  ["IdHolder id values", "ReserveException"])

p("P12", "At most one live resource per key; equal requests share it; last release frees",
  "Concurrent requests for the same key of the shared resource map return the same live object, which is constructed once per lifetime; requests for different keys return different objects. When the last reference goes away the object is destroyed exactly once and only then can a new object for that key appear; a constructor that throws reports the exception to the requester and leaves no trace of the key. Waiting for the map to become empty returns only, and always, when no resource is live, and visiting the live resources sees each live resource at most once and never a dead one.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of get, release, iterate, wait and throwing construction over few keys and many threads.",
  "TestSharedResourceMap runs one small deterministic scenario; resurrecting a key while its last reference is dying, throwing constructors and iteration/release races are schedule dependent.",
  ["SharedResourceMap.h"],
  [("weak reference per key with deleter-side erase", "src/SharedResourceMap.h")],
  ["getResource", "waitForEmpty", "forEachResource", "resource constructor/destructor"])

p("P13", "The LRU cache returns only what was last inserted and keeps the most recent",
  "Looking up a key in the cache returns either nothing or the value most recently inserted under that key and never another key's value; it must return it if the key is among the capacity-many most recently inserted or successfully looked-up keys, or if the value is still referenced outside the cache. The cache itself keeps no more than its capacity-many values alive, and values displaced from it are released exactly once; entries whose values have gone do not accumulate.",
  ["histories", "inputs", "configurations", "schedules"],
  "All histories of insert/lookup/drop-external-reference over any key set and any capacity including very small ones; values referenced outside are let go by other threads at any moment.",
  "TestLRU checks one short history; eviction-order, displaced-but-referenced and key-reuse interactions need long random histories against a model.",
  ["LRU.h"],
  [("recency list plus weak map", "src/LRU.h")],
  ["insert", "get", "value lifetimes"])

p("P14", "The intrusive shared-item set is a set with exact shared ownership",
  "The intrusive set holds each item at most once: inserting reports whether the item was new, removing reports whether it was there, and membership, size and iteration agree with a mathematical set under every history. Each contained item is kept alive by its membership and is released exactly once when it is removed or the set goes away; an item that is refused or removed, or whose insertion fails, is not kept alive by the set.",
  ["histories", "inputs"],
  "All histories of insert/erase/clear/iterate including duplicates, colliding buckets, growth, and items dying outside.",
  "The header has no runnable test of ownership; leaks and stale membership only show over histories with lifetime monitoring.",
  ["IntrusiveUnorderedSharedItemSet.h"],
  [("item-held self pointer", "src/IntrusiveUnorderedSharedItemSet.h")],
  ["insert/erase results", "item lifetimes"])

p("P15", "The object tree keeps parents and children consistent and frees each once",
  "Under every history of creating and destroying parents and children, in any order and from several threads, a parent reports exactly the children attached to it and still alive, and a child reports its parent until that parent has gone. Destroying a child detaches it from its parent; destroying a parent hands each child still attached to the parent's child destroyer exactly once. No object is destroyed twice or left attached to a dead parent.",
  ["histories", "schedules"],
  "All orders of creating and destroying any number of parents and children, with several threads creating and destroying children of one parent.",
  "The header has no tests; stale links and double destruction depend on destruction order.",
  ["ObjectTree.h"],
  [("registration set guarded by the parent's mutex", "src/ObjectTree.h")],
  ["children()/parent() views", "object lifetimes"])

p("P16", "The call stack tracks exactly the active frames of the current thread",
  "While frames are entered and left in any nesting, including by exceptions, the call stack of a thread contains exactly the currently active frames of that thread and no other thread's, most recent first, with lookup returning the innermost matching frame. A scope guard runs its action exactly once on scope exit, however the scope is left, and the guard macro's action works on the values its variables had when the guard was made.",
  ["schedules", "histories", "fault_sequences"],
  "All nesting depths and unwinding points on any number of threads.",
  "TestCallStack checks one fixed nesting on one thread.",
  ["CallStack.h", "ScopeExit.h"],
  [("thread-local intrusive stack head", "src/CallStack.h")],
  ["contains/iteration", "guard action calls"])

p("P17", "The unordered map behaves as a mathematical map under every operation history",
  "After any history of insertions, emplacements, assignments, erasures, lookups, copies, moves, swaps and rehashes, the unordered map holds exactly the key-value pairs a mathematical map would, reports sizes, results and insertion outcomes accordingly, and iterates over every element exactly once. Copies are independent values: changing one map never changes another. Looking up by explicit hash, predicate or transparent key finds the same element as looking up by key, elements stay at their address until erased, and every key and value is destroyed exactly once.",
  ["histories", "inputs"],
  "All operation histories, hash functions (including heavily colliding ones), key/value types and lookup flavours.",
  "The test file for this header cannot be built here, and samples only a few operations; aliasing between copies and collision handling need histories against a model.",
  ["UnorderedMap.h", "HashTablePredicate.h", "SimpleUnorderedStringMap.h"],
  [("multimap keyed by hash with equality filtering", "src/UnorderedMap.h")],
  ["operation results and iteration"])

p("P18", "Equal strings hash equal in every representation and are found by any of them",
  "For every string content, hashing it as an owning string, a view, a C string, a character range or through a lookup predicate gives the same hash, every character (of raw data: every byte) having a part in it, and comparing across representations agrees with comparing contents. A string map therefore finds an entry by any representation exactly when the contents are equal, including empty strings, embedded zero characters and long strings.",
  ["inputs"],
  "All string contents, lengths and representations.",
  "Tests for these headers do not build here and use a few literals; a hash that disagrees on some length, sign of character or embedded zero slips through.",
  ["StringHasher.h", "StringHashTablePredicate.h", "SimpleUnorderedStringMap.h", "Hash.h"],
  [("shared range hash", "src/StringHasher.h"), ("predicate carrying the hash", "src/StringHashTablePredicate.h")],
  ["hash values", "lookup results"])

p("P19", "String views never read outside their text and agree with the reference string",
  "Every query on a string view (comparison, all find variants, prefix/suffix tests and removals, sub-views, element access, conversion, stream output) gives what the same query defined on an owning string with the same characters gives, and reads no character outside the viewed range. This holds for every text, needle, position and count, including empty views, out-of-range positions, embedded zeros and non-ASCII characters, with out-of-range sub-views reported as documented.",
  ["inputs"],
  "All texts, needles, start positions and counts, for exactly sized (unterminated) buffers.",
  "TestStringView checks a few literals, which are zero-terminated and short, so off-by-one reads and boundary positions go unseen.",
  ["StringView.h"],
  [("bounded search loops over the view", "src/StringView.h")],
  ["return values", "memory accessed (red zones)"])

p("P20", "Concatenation and splitting are lossless and complete",
  "Concatenating any list of values yields exactly the text that printing each of them in order would give. Splitting a text by a delimiter predicate visits exactly the pieces between delimiters, in order, so that joining them with the delimiters gives back the text, for every placement of delimiters including leading, trailing, adjacent and none; the variant that skips empty pieces visits exactly the non-empty ones.",
  ["inputs"],
  "All argument lists, texts and delimiter placements.",
  "These headers have no runtime tests.",
  ["Concat.h", "Split.h"],
  [("ostringstream folding", "src/Concat.h"), ("tokenising loop", "src/Split.h")],
  ["produced string and pieces"])

p("P21", "Optional holds its value exactly while engaged, also when operations throw",
  "After any history of construction, conversion, assignment, emplacement, reset, swap and moves, an optional is engaged exactly when it should be, holds exactly the last stored value, and compares as an absent value less than every present one. The contained object is constructed and destroyed exactly once per engagement, never accessed when absent, also when a constructor or assignment of the contained type throws in the middle, and also when the value type is itself boolean or an optional is converted from an optional of another type.",
  ["histories", "inputs", "fault_sequences"],
  "All histories, value types (trivial, throwing, move-only, bool, convertible) and points at which a special member of the value throws.",
  "TestOptional covers mostly compile-time traits and cannot be built here; lifetime after a throwing copy and conversions from empty optionals are not sampled.",
  ["Optional.h"],
  [("engagement flag plus union storage", "src/Optional.h")],
  ["value lifetimes", "comparison results"])

p("P22", "Bit vectors behave as a sequence of independent bits of the given length",
  "After any history of construction, push, pop, append, resize-free writes, clearing, reading and bitwise operations, a bit vector has exactly the bits and the length that a plain sequence of booleans would have; writing one bit never changes another and no access touches memory outside the blocks in use. Serialising and reading back gives an equal bit vector.",
  ["histories", "inputs"],
  "All operation histories and lengths around block boundaries, all block types.",
  "The header has no runnable test; dirty trailing bits and block-boundary appends only show over histories.",
  ["BitVector.h"],
  [("block vector plus bit count", "src/BitVector.h")],
  ["bit values and sizes", "serialised bytes"])

p("P23", "Network messages read back exactly what was written and reject short input",
  "Reading values, strings and nested messages from a network message in the order they were written gives equal values and ends exactly at the end, for every sequence of element types and sizes. On truncated, corrupted or hostile input each read either succeeds within the received bytes or fails with the documented exception, leaving the read position where it was, and never reads outside the message or allocates for more than it holds.",
  ["inputs", "histories"],
  "All write/read sequences and all byte strings as received messages, all seeks.",
  "There is no test for the header; hostile sizes and position roll-back need generated byte strings and memory monitoring.",
  ["NetworkMessage.h"],
  [("bounds-checked cursor reads", "src/NetworkMessage.h")],
  ["read results", "position", "memory accessed"])

p("P24", "File-backed data and descriptors: complete reads, exact ownership, clean errors",
  "Loading data from a file yields exactly the file's bytes, for every size and however the reads are split or interrupted, or reports an error; it never yields partial data as complete. A file descriptor holder closes its descriptor exactly once, when it is destroyed, reassigned or explicitly closed and not otherwise, through any history of moves, and system call failures are reported by the documented exceptions carrying the error number. An input memory stream yields exactly its bytes, then the end.",
  ["inputs", "histories", "fault_sequences"],
  "All file sizes and contents, short reads, interrupted and failing system calls, all histories of move/assign/close.",
  "No runnable tests exist; short reads, EINTR and I/O errors must be injected.",
  ["Datum.h", "FileDescriptor.h", "InputMemoryStream.h", "Posix.h"],
  [("read loop", "src/Datum.h"), ("owning descriptor wrapper", "src/FileDescriptor.h")],
  ["loaded bytes", "descriptor table", "exceptions"])

p("P25", "Packed structures store each field at its packed place and nothing else",
  "In a packed structure each field lies immediately after the previous one with no padding, so sizes and offsets are the running sums of the field sizes, for compile-time as well as run-time described layouts. Reading a field returns the value last written to it, writing one changes only that field's bytes, whatever the alignment of the underlying memory, and copies are independent. The smallest and largest sizes reported for a layout bound those of every structure of it, and an assignment that runs out of memory leaves its target as it was. No access goes outside the structure's bytes.",
  ["inputs", "histories"],
  "All field type lists, array lengths and buffer alignments, all write/read orders.",
  "The tests check fixed layouts on aligned buffers; misaligned access and neighbour corruption need random layouts with red zones.",
  ["PackedStruct.h", "PackingInfo.h", "PackedStructAccessor.h", "ConstPackedStructAccessor.h", "DynamicPackedStruct.h", "DynamicPackingInfo.h", "MaybeDynamicPackedStruct.h", "MaybeDynamicPackingInfo.h"],
  [("prefix-sum offsets and memcpy access", "src/PackingInfo.h, src/PackedStruct.h")],
  ["field values", "raw bytes"])

p("P26", "Unaligned access and byte-order conversion preserve values exactly",
  "Reading, writing and stepping through unaligned pointers and references at any address behaves as the same operations on an aligned array would: values round-trip, arithmetic moves by whole elements, comparisons agree with addresses, and only the element's own bytes are touched. Converting between host and big-endian, little-endian or network byte order gives the bytes in the stated order in memory and converts back to the same value, for every integer type and value.",
  ["inputs"],
  "All values, addresses, offsets and element types, assignment between different arithmetic types.",
  "There are no runtime tests for these headers; only some alignments and conversions fail.",
  ["UnalignedPointer.h", "UnalignedReference.h", "ConstUnalignedReference.h", "EndianMacros.h"],
  [("memcpy access", "src/UnalignedReference.h"), ("endian conversion functions", "src/EndianMacros.h")],
  ["values and raw memory bytes"])

p("P27", "Wide unsigned integers compute exactly modulo two to the bit width",
  "For every bit width and block type, addition, subtraction, multiplication, division with remainder, shifts, bitwise operations, increments, comparisons, bit access and conversions of wide unsigned integers give exactly the mathematical result modulo two to the width, with bits beyond the width always zero. Division by zero is reported by the documented exception, and printing gives the number's digits in the stream's base.",
  ["inputs"],
  "All operand values, widths (multiples and non-multiples of the block size) and block types.",
  "The header has no tests; carry, borrow and partial-block cases are value specific.",
  ["uint_t.h", "integer_demotion.h"],
  [("block-wise carry arithmetic and top-block mask", "src/uint_t.h")],
  ["results compared with arbitrary-precision reference"])

p("P28", "128-bit unsigned integers compute exactly modulo two to the 128",
  "For all operands, addition, subtraction, negation, multiplication, division, remainder, shifts below the width, bitwise operations, comparisons and demotion of the 128-bit unsigned type give exactly the mathematical result modulo two to the 128, and the quotient and remainder satisfy the division identity. Division by zero is reported by the documented exception, and printing gives the number's digits in the stream's base.",
  ["inputs"],
  "All pairs of 128-bit operands and all shifts below 128.",
  "The header has no tests; carries between the halves and 64-bit shift boundaries are value specific.",
  ["uint128_t.h", "integer_demotion.h"],
  [("two 64-bit halves with carry propagation", "src/uint128_t.h")],
  ["results compared with the compiler's 128-bit integers"])

p("P29", "Mixed-sign integer comparisons and extrema follow mathematics",
  "Comparing two integers of any two types, signed or unsigned and of any widths, gives the result of comparing their mathematical values, and the sign tests do likewise. Minimum and maximum of any argument list return the mathematical extremum, and the power-of-two test is true exactly for the powers of two.",
  ["inputs"],
  "All pairs of integer types and all values, in particular those around zero and the limits of each type.",
  "TestIntegralComparisons enumerates some type pairs with few values.",
  ["IntegralComparisons.h", "Min.h", "Max.h", "IsPowerOfTwo.h", "ToSigned.h", "ToUnsigned.h", "SignedToUnsigned.h", "EnumToUnderlying.h"],
  [("sign-aware comparison dispatch", "src/IntegralComparisons.h")],
  ["comparison results"])

p("P30", "Range helpers visit and compare exactly the elements of their ranges",
  "Measuring a range gives its number of elements, comparing two ranges is true exactly when they have equally many, pairwise equal elements (whatever the kinds of the two ranges), and a reversed range visits the same elements in the opposite order. Nothing outside the ranges is read, and single-pass ranges are read at most once per element.",
  ["inputs"],
  "All combinations of range kinds (sized, random access, bidirectional, forward, single pass), lengths and contents.",
  "TestRange/TestReversedRange do not build here and mostly check types.",
  ["Range.h", "ReversedRange.h", "ReversionWrapper.h", "Iterator.h", "Size.h"],
  [("comparison strategy by range category", "src/Range.h")],
  ["results and element accesses"])

p("P31", "Exceptions carry their message and cause chain intact, however copied",
  "An exception defined with the library's macros reports exactly the message it was created with, survives copying, assignment, rethrowing and transport to other threads, and stays catchable as each of its declared bases. Throwing with a nested cause preserves both the thrown exception and the complete chain of causes in order; with no current exception, or with a thrown type that cannot carry a cause, the exception itself still arrives intact. Errno-based exceptions report the error number and text of the failing call.",
  ["histories", "inputs", "schedules"],
  "All messages, chain depths, throw contexts and copying histories.",
  "TestThrowNested checks a depth-two chain on one thread.",
  ["Exception.h", "ExceptionMacros.h", "ThrowNested.h", "ThrowWithNested.h"],
  [("shared immutable message storage", "src/ExceptionMacros.h"), ("nested exception mix-in", "src/ThrowNested.h")],
  ["what()", "nested chain"])

p("P32", "Flag sets, plain and atomic, behave as sets of independent flags",
  "A flag set contains exactly the flags that were set and not cleared since, and its union, intersection, difference and membership tests follow set algebra. The atomic flag set does the same under concurrent use: every set, clear and exchange takes effect exactly once and reports the flags that were present immediately before it. With the default ordering all threads agree on one order of these operations, with acquire and release what was written before an operation is seen by who sees the operation.",
  ["schedules", "histories", "inputs"],
  "All flag combinations and all interleavings of concurrent modifications.",
  "There are no tests for these headers; lost updates need concurrent histories.",
  ["Flags.h", "AtomicFlags.h"],
  [("single atomic word with read-modify-write operations", "src/AtomicFlags.h")],
  ["flag values returned"])

p("P33", "Owning and viewing memory helpers keep exact lifetimes and bounds",
  "The uninitialised dynamic array, the reference vectors and the tuple-element shared pointers own or view exactly the elements given to them through every history of construction, moves, swaps and destruction: sizes and contents are as given, memory is released exactly once, and a shared element pointer keeps its whole tuple alive. Memory from the aligned allocator is aligned as requested, usable in full, and released exactly once, and impossible sizes are reported by the documented exception.",
  ["histories", "inputs", "configurations"],
  "All sizes, alignments, element types and histories of moves.",
  "These headers have at most compile-time tests; leaks, double frees and overflowed sizes need monitored executions.",
  ["UninitializedDynamicArray.h", "ReferenceVector.h", "SharedTupleElementPointers.h", "AlignedAllocator.h"],
  [("unique ownership of the block", "src/UninitializedDynamicArray.h"), ("aligned allocation", "src/AlignedAllocator.h")],
  ["addresses, contents, lifetimes"])

p("P34", "Identifiers by value: UUIDs and hashes are faithful and well ordered",
  "A UUID parsed from text, built from bytes, copied, compared or printed keeps its sixteen bytes exactly: printing and parsing are inverse, malformed text is rejected with the documented exception, and equality and order agree with those of the bytes. Strong types compare and hash as their underlying values and never mix with them.",
  ["inputs"],
  "All 128-bit values and all texts, well formed or not.",
  "TestUuid/TestStrongType check a few constants.",
  ["Uuid.h", "StrongType.h"],
  [("fixed 16-byte representation", "src/Uuid.h")],
  ["text and bytes", "comparison and hash results"])

p("P35", "Integer literal operators denote the written number in the named type",
  "For every decimal, octal and hexadecimal literal text that is in range, the literal operator of each named integer type yields exactly the number written, as a value of exactly that type, and a literal that is malformed or out of range does not compile; the wrapping variants yield the number reduced modulo two to the type's width.",
  ["inputs"],
  "All digit strings in all three bases for all named types.",
  "The literal tests do not build here and sample a few constants.",
  ["IntegerLiterals.h", "CstdintLiterals.h", "CstddefLiterals.h"],
  [("digit-wise compile-time evaluation", "src/IntegerLiterals.h")],
  ["literal values"])

p("P36", "Failure diagnostics report the whole exception chain and end the process",
  "The verbose exception printer writes every exception of a chain, outermost first, with its position, type and message, exactly once, stops cleanly at the first exception that carries no cause or cannot be examined, and leaves the printed exceptions and the current exception as they were. The verbose terminate and unexpected handlers write the chain of the active exception, or say that there is none, and abort; handlers installed for a scope are replaced back by the previous ones at its end, however scopes nest. Each test assertion macro evaluates its expression exactly once, and aborts, with the expression and the whole exception chain in the message, exactly when what it asserts does not hold.",
  ["inputs", "histories", "crash_points"],
  "All chains (lengths, types including non-standard, virtually derived and self-nesting ones, messages), all ways for a process to end, all nestings of handler scopes, all outcomes of asserted expressions.",
  "No test looks at these headers' output; the tests themselves rely on the macros, which a passing test exercises only where the assertion holds.",
  ["DebugVerboseHandlers.h", "TestAssert.h"],
  [("rethrowing along nested_ptr", "src/DebugVerboseHandlers.h verbosePrintException"),
   ("handlers restored in the destructor", "src/DebugVerboseHandlers.h ScopedDebugVerboseHandlers")],
  ["text written and exit status of the process", "std::get_terminate/get_unexpected"])

p("P37", "Self-sharing, tuple application and small adapters add and lose nothing",
  "An object that shares itself hands out pointers, to itself or to parts of it, which own it together with all its other owners and point exactly where asked; its weak handles are empty whenever nobody owns it (under construction, under destruction, on the stack), where asking for ownership is refused with the documented exception, on any number of threads. Applying a callable to tuples calls it once with every element of every tuple in order, neither copied nor changed in value category, and a null-free tuple holds exactly the arguments that are not null pointers, found again at their original positions. The checked return hands its argument on unchanged, and the microsecond clock reads exactly what the system clock says or reports its failure as asked.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "All histories and interleavings of owners and weak handles, all tuple shapes and element categories, all clock readings including failing ones.",
  "None of these headers but the checked return has a test; ownership and value categories need monitored histories, a failing clock needs fault injection.",
  ["EnableSharedFromThis.h", "ApplyTuples.h", "NoNullTuple.h", "AssertReturn.h", "MicrosecondTime.h"],
  [("ownership taken from shared_from_this", "src/EnableSharedFromThis.h"),
   ("recursive unpacking with forwarded arguments", "src/ApplyTuples.h Detail::ApplyTuples::Apply"),
   ("index mapping", "src/NoNullTuple.h Detail::IndexInNonNullTuple")],
  ["sharedFromThis/weakFromThis", "applyTuples", "makeNoNullTuple/noNullGet", "getUsTime/getUsTimeOrThrow"])

p("P38", "Type-level helpers compute exactly what their names say",
  "For every list of types or values, the template list helpers append, prepend, count, find, select, cut, filter and combine exactly as the corresponding operations on sequences do, keeping order and duplicates. For every type, the cv-copying, decaying and stripping helpers, the swappability, referenceability and function traits, the detection idiom and the concepts yield the type or answer their definition gives, also for void, references, arrays, functions and types that lack the asked operations, where they answer instead of failing to compile. Demoting an integer keeps its value modulo two to the width of the shorter type, and is offered exactly for conversions to shorter types.",
  ["programs", "inputs"],
  "All lists, predicates, types and nestings of helpers: programs in which user code instantiates them.",
  "The template tests sample a few lists each, several helpers (filters of values, concepts over unusual types) have no test at all, and their tests mostly do not build here.",
  ["TemplateAppend.h", "TemplateAppendTypes.h", "TemplatePrepend.h", "TemplatePrependTypes.h", "TemplateCondAppend.h", "TemplateCondAppendType.h", "TemplateInverseCondAppend.h", "TemplateInverseCondAppendType.h", "TemplateFilter.h", "TemplateFilterTypes.h", "TemplateInverseFilter.h", "TemplateInverseTypeFilter.h", "TemplateSubTypes.h", "TemplatePrefixTypes.h", "TemplateSuffixTypes.h", "TemplateCommonPrefixTypes.h", "TemplateCountTypes.h", "TemplateContainsType.h", "TemplateGetParam.h", "TemplateGetTypeParam.h", "TemplateFirstType.h", "TemplateLastType.h", "TemplateAll.h", "TemplateAny.h", "TemplateNone.h", "TemplateCopyParams.h", "TemplateInstantiateWithTypeParams.h", "CopyCv.h", "StripAndDecay.h", "StripReferenceWrapper.h", "RemoveCvref.h", "DecayTupleSize.h", "SizeOfTypes.h", "FunctionTraits.h", "IsSwappable.h", "IsReferenceable.h", "Detected.h", "Concepts.h", "Iterator.h", "integer_demotion.h", "EnumConstant.h"],
  [("recursive partial specialisation", "src/Template*.h"),
   ("expression SFINAE in check()", "src/Concepts.h"),
   ("dispatch on referenceability", "src/IsSwappable.h")],
  ["the types and constants computed, observed in the running program"])

if __name__ == "__main__":
    for x in P:
        sys.stdout.write(json.dumps(x, ensure_ascii=False) + "\n")
