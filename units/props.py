"""The property list: source of /verif/properties.jsonl (tools/gen.py writes it)."""
P = []


def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=tests,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None), na=na))


# --- transactional memory -------------------------------------------------------------------------------------
p("T01", "Transactional loads and stores are isolated and take effect all or nothing",
  "Inside a transaction a load returns the transaction's own latest store to each byte and otherwise the byte's "
  "memory content at the time the transaction first took its lock. Stores reach memory only on commit, where exactly the "
  "stored bytes change, and after an abort every byte is as it was before the transaction. This holds for every address, size, alignment "
  "and order of operations, and when any internal step fails.",
  ["inputs", "histories", "fault_sequences"],
  "every address, size and alignment, every sequence of loads, stores and privatizations, every failure of a lock or allocation",
  "the tests move a few fixed, aligned sizes; block-crossing accesses, mixed access modes and failures in mid-access are not enumerated",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c", "modules/tm/src/frame.c", "modules/tm/src/tm.c"],
  [("per-block buffer with validity bit mask", "modules/tm/src/page.c:tm_page_ld,tm_page_st"),
   ("write back on commit, restore on abort", "modules/tm/src/vmem_tx.c:tm_vmem_tx_apply,tm_vmem_tx_undo"),
   ("splitting accesses at block borders", "modules/tm/src/vmem_tx.c:tm_vmem_tx_ld,tm_vmem_tx_st")],
  [("buf, buf_bits", "transaction-local copy of a block and which of its bytes are valid", "modules/tm/src/page.h:struct tm_page")])
p("T02", "Privatized memory shows the transaction's view and is restored on abort",
  "After privatizing a region, direct access to it shows the transaction's earlier stores; if it was privatized for storing, direct "
  "stores are kept by commit and all bytes are restored by abort. Privatizing up to a terminating "
  "character covers exactly the bytes up to the first such character in the transaction's own view. Memory that the transaction "
  "discarded is not accessible to it any more.",
  ["inputs", "histories", "fault_sequences"],
  "every region, terminator, access mode and preceding sequence of loads and stores, every failure of a lock or allocation",
  "tests privatize whole fixed buffers first thing in a transaction; privatizing after buffered stores, partial blocks and terminators at block borders are not covered",
  ["modules/tm/src/vmem_tx.c", "modules/tm/src/page.c"],
  [("write-through mode with saved original bytes", "modules/tm/src/vmem_tx.c:prepare_page_privatize"),
   ("terminator search", "modules/tm/src/page.c:tm_page_ld_c")],
  [("write-through / discarded flags", "how a block is accessed from now on", "modules/tm/src/page.h")])
p("T03", "Transactional memory-to-memory copy equals a load followed by a store",
  "Copying a region inside a transaction gives the destination exactly the bytes the transaction would have loaded from the source and changes "
  "nothing else, for every size and relative alignment of two non-overlapping regions.",
  ["inputs", "histories", "fault_sequences"],
  "every pair of disjoint regions, size, alignment, earlier access history, failure of a lock or allocation",
  "the tests copy equally aligned buffers; different alignments of source and destination make a different path per block",
  ["modules/tm/src/vmem_tx.c"],
  [("chunking by the smaller of both block remainders", "modules/tm/src/vmem_tx.c:tm_vmem_tx_ldst")])
p("T04", "Transactional memory holds a lock on every accessed block until it finishes",
  "Before a transaction reads or writes memory it holds at least a reader lock or, for writing, the exclusive writer lock of each touched block, it keeps them until "
  "its effects are applied or undone, and it then releases each exactly once. Failed lock attempts change neither data nor lock state. "
  "Two distinct blocks never share their lock, and one block always maps to the same lock.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "every access, every starting lock state, every conflict; per operation, for any state other threads can leave between calls",
  "lock leaks and missing locks show up only under contention on the particular block",
  ["modules/tm/src/page.c", "modules/tm/src/frame.c", "modules/tm/src/framemap.c", "modules/tm/src/vmem.c", "modules/tm/src/vmem_tx.c"],
  [("lock status per page", "modules/tm/src/frame.c:tm_frame_try_rdlock,tm_frame_try_wrlock,tm_frame_unlock"),
   ("release in finish", "modules/tm/src/vmem_tx.c:tm_vmem_tx_finish"),
   ("block to frame map", "modules/tm/src/framemap.c:tm_frame_map_lookup")])

# --- core ----------------------------------------------------------------------------------------------------
p("C01", "Logged events take effect exactly once, in order, or are undone in reverse",
  "Commit hands every event of the transaction to the module that logged it exactly once and in the order of logging; roll-back hands them back exactly "
  "once in reverse order. Event code and cookie arrive unchanged, processing stops at the first error, and the "
  "log is empty after every commit and roll-back.",
  ["histories", "inputs", "fault_sequences"],
  "logs of every length and content, every position at which an event's handler fails or the log cannot grow",
  "tests log a handful of events and inject no failures inside commit or roll-back",
  ["src/picotm_event.c", "src/picotm_log.c", "src/picotm_tx.c"],
  [("iteration over the log in both directions", "src/picotm_event.c:picotm_events_foreach1,picotm_events_rev_foreach1"),
   ("append and growth", "src/picotm_log.c:picotm_log_append")],
  [("log", "array of events with capacity and length", "src/picotm_log.h:struct picotm_log")])
p("C02", "Modules see the commit/abort protocol in the documented order",
  "On commit every registered module is prepared before any event or module state is applied, then applied, then finished, each exactly once; on abort it is undone before it is finished. A "
  "module never gets apply and undo for the same attempt, a failing prepare leads to an abort, and only modules registered by this thread are called.",
  ["histories", "fault_sequences"],
  "every number of registered modules, every combination of absent callbacks, every callback failing",
  "tests register few modules and do not fail individual callbacks",
  ["src/picotm_module.c", "src/picotm_tx.c"],
  [("callback dispatch", "src/picotm_module.c"), ("commit and roll-back", "src/picotm_tx.c:picotm_tx_commit,picotm_tx_rollback")])
p("C03", "A transaction starts, retries, turns irrevocable and ends as its status says",
  "A transaction attempt starts only while holding the global exclusivity lock in the mode it runs in, exclusive iff irrevocable, and always gives the lock back when it commits or rolls back. "
  "Restart reasons map to retry, irrevocable retry or recovery exactly as documented, the retry counter counts "
  "the attempts since the first, and a committed or finally aborted transaction leaves the thread ready for a fresh one.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of begin, commit, restart and error reports, every failure of the global lock or a module",
  "needs failures at specific calls in specific orders",
  ["src/picotm.c", "src/picotm_tx.c", "src/picotm_lock_manager.c"],
  [("begin/commit/rollback", "src/picotm_tx.c"), ("restart logic", "src/picotm.c")])
p("C04", "Errors keep their class, value and recoverability until they are handled",
  "Each way to report an error (conflict, revocability, error code, errno, signal, kernel return) is later recognised as exactly that class with exactly the reported value, errors start out recoverable, and marking an error non-recoverable "
  "changes nothing else. Clearing an error leaves none set, and success codes report no error.",
  ["inputs", "histories"], "every error value and every order of report operations",
  "tests use a few error values and never combine reports",
  ["src/picotm-error.c", "include/picotm/picotm-error.h"],
  [("error setters and predicates", "src/picotm-error.c")])
p("C05", "Growable tables keep their elements and visit each exactly once",
  "Resizing a table keeps all elements it can hold and its new capacity is as requested; a failed resize leaves the table as it was and reports out-of-memory. Walking a table visits "
  "each element exactly once in order (or reverse order), stops early if told so, and removing duplicates from a sorted table keeps one of each value.",
  ["inputs", "fault_sequences"], "every length, element size, content and allocation failure",
  "the library tables have no tests with failing allocations or adversarial contents",
  ["src/picotm-lib-tab.c", "src/table.c"],
  [("tabresize, tabwalk", "src/picotm-lib-tab.c, src/table.c")])

# --- locking --------------------------------------------------------------------------------------------------
p("L01", "Reader/writer locks never admit a writer beside another holder",
  "A reader/writer lock is granted for writing only if nobody else holds it and for reading only if no writer holds it; an upgrade is granted only to the sole reader. A refused request changes no holder and reports "
  "a conflict naming the lock, the reader count never overflows, and releasing removes exactly the caller's share.",
  ["schedules", "inputs"], "every reachable lock word and every interfering change of it between the steps of an operation",
  "races on the lock word need exact interleavings; reader saturation needs hundreds of readers",
  ["src/picotm-lib-rwlock.c"],
  [("compare-and-exchange loops on the lock word", "src/picotm-lib-rwlock.c")],
  [("lock_state", "reader count, writer bit, waiter bookkeeping", "include/picotm/picotm-lib-rwlock.h")])
p("L02", "A transaction's local lock status equals the lock it holds",
  "After any sequence of lock, upgrade and unlock requests on one lock, the transaction's recorded status is exactly the share it holds; "
  "a repeated request takes no second share, and unlocking releases the share once and only if there is one.",
  ["histories", "fault_sequences"], "every starting status, request sequence and lock refusal",
  "tests do not interleave refusals and upgrades",
  ["src/picotm-lib-rwstate.c"], [("status tracking", "src/picotm-lib-rwstate.c")])
p("L03", "The lock-owner registry gives threads unique slots and finds the right waiter",
  "Every registered owner has its own valid index that resolves to it until it is unregistered, and freed indexes are reused without disturbing others. "
  "Inserting, removing and waking waiters of a lock keeps its waiter queue ordered and complete: no waiter is lost and none is woken that did not wait on that lock.",
  ["histories", "schedules"], "every set of registered owners and waiters, every registration order and allocation failure",
  "tests use few threads; slot exhaustion and lists of several waiters are not reached",
  ["src/picotm_lock_manager.c", "src/picotm_lock_owner.c"],
  [("owner table and index", "src/picotm_lock_manager.c"), ("waiter list", "src/picotm_lock_manager.c, src/picotm_lock_owner.c")])
p("L04", "Time arithmetic for lock timeouts is exact",
  "Adding, subtracting, comparing and converting time values equals the same operation on the number of nanoseconds for all non-negative normalised inputs whose result is representable, and results are normalised.",
  ["inputs"], "all pairs of normalised time values", "no tests exist for the borrow and carry cases",
  ["src/picotm_os_timespec.c", "src/picotm_os_timespec.h"], [("timespec helpers", "src/picotm_os_timespec.c")])

# --- library data structures ------------------------------------------------------------------------------------
p("S01", "Linked lists keep order, membership and linkage under every operation",
  "Enqueuing, inserting, dequeuing and cleaning up change exactly the named element and keep the order of all others; the list stays a closed cycle that is consistent in both directions. "
  "Walks visit each element exactly once and in order until told to stop, and searches return the first match or the end.",
  ["histories", "inputs"], "every list length, position and callback result",
  "tests use short lists and few positions",
  ["include/picotm/picotm-lib-slist.h"], [("list primitives", "include/picotm/picotm-lib-slist.h")])
p("S02", "The local tree map returns for each key exactly the value created for it",
  "Looking up a key creates its value at most once and returns the same value ever after, for every 64-bit key and key-bit configuration; distinct keys never share a value. "
  "Iteration and clean-up visit each stored value exactly once, and a failed allocation leaves all stored values reachable.",
  ["inputs", "histories", "fault_sequences"], "every sequence of keys, key-bit width and allocation failure",
  "depth growth depends on the key's magnitude; tests use small keys",
  ["src/picotm-lib-treemap.c", "include/picotm/picotm-lib-treemap.h"], [("node tree indexed by key bits", "src/picotm-lib-treemap.c")])
p("S03", "The shared tree map gives all threads the same value for a key",
  "Concurrent look-ups of a key return the same value; a value or node created by a thread that lost the race is destroyed exactly once and never returned, and distinct keys never share a value.",
  ["schedules", "inputs", "fault_sequences"], "every key, every point at which another thread installs a node or value, every allocation failure",
  "the losing side of an installation race is hardly ever taken in tests",
  ["src/picotm-lib-shared-treemap.c"], [("compare-and-exchange installation", "src/picotm-lib-shared-treemap.c")])
p("S04", "Reference counts construct on first use and release on last, exactly once",
  "A counted object is set up exactly when its count rises from zero and torn down exactly when it returns to zero; refused or failing set-ups leave the count unchanged. "
  "This holds as long as a counter has fewer references than it can count.",
  ["histories", "inputs", "fault_sequences"], "every count, every failing or refusing set-up condition",
  "overflow and failing initialisers are not tested",
  ["include/picotm/picotm-lib-ref.h", "src/picotm-lib-shared-ref-obj.c", "include/picotm/picotm-lib-shared-state.h",
   "include/picotm/picotm-lib-state.h"],
  [("reference counters", "include/picotm/picotm-lib-ref.h"), ("counted objects", "src/picotm-lib-shared-ref-obj.c")])

# --- transactional containers --------------------------------------------------------------------------------------
def x(id, what, title, extra, files):
    p(id, title,
      "Inside a transaction the %s shows its committed content with the transaction's own changes applied, in the right order; commit publishes exactly these changes and abort restores the exact committed content and order. %s" % (what, extra),
      ["histories", "inputs", "fault_sequences"],
      "every committed content, every sequence of operations, every failure of locking or logging",
      "tests use a few elements and rarely abort after mixed insertions and removals",
      files, [("execute, apply and undo of each operation", files[0])])
x("X01", "list", "Transactional lists commit and abort exactly", "Size, front, back, emptiness and iteration agree with that content.",
  ["modules/txlib/src/txlist_tx.c", "modules/txlib/src/txlist_state.c", "modules/txlib/src/txlist_entry.c"])
x("X02", "queue", "Transactional queues are first-in first-out across commit and abort", "Elements are popped in the order they were pushed.",
  ["modules/txlib/src/txqueue_tx.c", "modules/txlib/src/txqueue_state.c", "modules/txlib/src/txqueue_entry.c"])
x("X03", "stack", "Transactional stacks are last-in first-out across commit and abort", "Elements are popped in the reverse order of pushing.",
  ["modules/txlib/src/txstack_tx.c", "modules/txlib/src/txstack_state.c", "modules/txlib/src/txstack_entry.c"])
x("X04", "multiset", "Transactional multisets stay sorted and complete across commit and abort",
  "Entries are always visited in ascending order with equal entries adjacent, the order among equal entries being open; find, count and the lower and upper bounds agree with that sequence.",
  ["modules/txlib/src/txmultiset_tx.c", "modules/txlib/src/txmultiset_state.c", "modules/txlib/src/txmultiset_entry.c"])
p("X05", "Container transactions record and replay every operation exactly once",
  "Each operation on a transactional container is logged so that commit applies it and abort reverts it exactly once on the container it was issued on, also after the log has grown. A failed operation "
  "leaves nothing that abort would not revert, all container locks are held from first use to the end of the transaction, and each container is tracked once per transaction.",
  ["histories", "fault_sequences"], "every interleaving of operations over several containers, every logging or locking failure",
  "failures between effect and logging are not injected by tests",
  ["modules/txlib/src/txlib_tx.c", "modules/txlib/src/txlib_event.c", "modules/txlib/src/txlib_module.c"],
  [("event dispatch", "modules/txlib/src/txlib_event.c"), ("per-transaction container list", "modules/txlib/src/txlib_tx.c")])

# --- checked computation ----------------------------------------------------------------------------------------
p("A01", "Transactional arithmetic is exact or reports an error",
  "Every checked addition, subtraction, multiplication, division and remainder, for every supported type, returns the mathematically exact result of the operation if it is representable (for floating point and finite operands, the correctly rounded result if it is finite). "
  "Otherwise it reports an out-of-range or invalid-argument error and never a wrong value; no input crashes.",
  ["inputs"], "all pairs of operands of each type", "tests use single values per type, mostly far from the limits",
  ["modules/arithmetic/include/picotm/picotm-arithmetic.h", "modules/arithmetic/src/arithmetic.c"],
  [("range tests before the operation", "modules/arithmetic/include/picotm/picotm-arithmetic-ctypes.h")])
p("A02", "Transactional casts preserve the value or report an error",
  "Every checked cast between supported types returns the same value, rounded if the target is a floating-point type, when it lies in the target type's range and reports an error otherwise.",
  ["inputs"], "all values of each source type for each target type", "tests sample a value or two per pair of types",
  ["modules/cast/include/picotm/picotm-cast.h", "modules/cast/src/cast.c"], [("range tests before the conversion", "modules/cast/include/picotm")])

# --- libc ---------------------------------------------------------------------------------------------------------
p("M01", "Transactional allocation is undone on abort, transactional free on commit",
  "A block allocated in a transaction is released exactly once if the transaction aborts and stays if it commits; a block freed in a transaction is released exactly once on commit and stays, with its content, on abort. "
  "A returned block is at least as large as requested, also for the largest sizes, and failed requests leave nothing allocated.",
  ["inputs", "histories", "fault_sequences"], "every size and alignment, every sequence of allocations and frees, every failure",
  "tests allocate small sizes and do not count releases",
  ["modules/libc/src/allocator/allocator_tx.c", "modules/libc/src/allocator/module.c"],
  [("event log of allocations", "modules/libc/src/allocator/allocator_tx.c")])
p("M02", "Transactional memory and string functions match their C counterparts",
  "The transactional string, memory and allocation-convenience functions return the results and leave the memory contents that the C functions define, read and write no byte outside the objects involved, and report sizes that cannot be allocated. "
  "Every byte they read or write is privatized by the transaction first.",
  ["inputs"], "all strings, sizes and embedded terminators", "tests use one or two strings each",
  ["modules/libc/src/string-tm.c", "modules/libc/src/stdlib-tm.c", "modules/libc/src/stdlib.c", "modules/libc/src/string.c"],
  [("string functions over privatized memory", "modules/libc/src/string-tm.c")])
p("F01", "Transactional file reads see the transaction's own writes; commit writes them in order",
  "A read at any offset returns the file's bytes overlaid with the transaction's earlier writes to them, and the number of bytes the resulting file would provide. Commit makes the file's content exactly that, and an aborted transaction writes nothing.",
  ["inputs", "histories", "fault_sequences"], "every sequence of reads, writes, offsets and sizes, short transfers",
  "tests do sequential access on small files",
  ["modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/ioop.c", "modules/libc/src/fildes/iooptab.c"],
  [("write buffer and overlay", "modules/libc/src/fildes/iooptab.c:iooptab_read")])
p("F02", "The transactional file offset follows the C library's rules",
  "Reading, writing and seeking move the transaction's file offset exactly as the corresponding calls would outside a transaction, positioned reads and writes do not move it; after commit the descriptor's offset equals the "
  "transaction's and after abort it is what it was before. Invalid seeks fail without moving it.",
  ["inputs", "histories"], "every offset, whence and order of operations", "tests check few seeks",
  ["modules/libc/src/fildes/regfile_tx.c", "modules/libc/src/fildes/fd_tx.c"], [("transaction-local offset", "modules/libc/src/fildes/regfile_tx.c")])
p("F03", "File I/O locks every record of the accessed region and releases them all",
  "Before a transaction reads or writes a file region it holds a reader or writer lock of every fixed-size record that the region touches; on conflict nothing that the call newly acquired stays locked, and at the end of the transaction every lock is released once.",
  ["inputs", "fault_sequences"], "every offset and length, every position of a conflict",
  "needs unaligned regions and conflicts in the middle of a region",
  ["modules/libc/src/fildes/rwcounter.c", "modules/libc/src/fildes/rwcountermap.c", "modules/libc/src/fildes/rwlockmap.c", "modules/libc/src/fildes/seekbuf_tx.c"],
  [("record index range", "modules/libc/src/fildes/rwcountermap.c")])
p("F04", "File-descriptor operations reach the right descriptor and hold it until the end",
  "Every transactional descriptor operation is applied or undone exactly once, on the descriptor and open file it was issued on; descriptors and open files in use stay referenced until the transaction ends and are then released exactly once. "
  "Closing takes effect on commit only, and opening or duplicating is undone on abort.",
  ["histories", "fault_sequences"], "every sequence of descriptor operations, every failure in between",
  "tests use few descriptors and file types",
  ["modules/libc/src/fildes/fildes_tx.c", "modules/libc/src/fildes/fd_tx.c", "modules/libc/src/fildes/ofd_tx.c", "modules/libc/src/fildes/fildes_event.c"],
  [("event dispatch by operation", "modules/libc/src/fildes/fildes_tx.c")])
p("P01", "An aborted transaction restores the process state it changed",
  "Working directory, locale (per category and per thread), errno and floating-point environment changed inside a transaction are restored to their values from before it on abort and kept on commit; what the transaction observes in between is its own setting. Errno and floating-point environment are saved once, and the first save counts; a math function's error is reported exactly if that call made it. A call that fails changes nothing; shared state is accessed under its locks, and locks, memory and references are released at the end.",
  ["histories", "fault_sequences"], "every order of changes in a transaction, every failing system call",
  "tests check single changes",
  ["modules/libc/src/error/error_tx.c", "modules/libc/src/cwd/cwd_tx.c", "modules/libc/src/locale/locale_tx.c", "modules/libm/src/fpu_tx.c", "modules/libm/src/matherr.c"],
  [("save, apply and undo", "modules/libc/src/cwd/cwd_tx.c, modules/libc/src/error/error_tx.c, modules/libm/src/fpu_tx.c")])
p("D01", "Pointer-associated data is found again exactly by its owner and key",
  "Data associated with a pointer is returned for exactly that pointer, created at most once under concurrent requests, protected against removal while referenced and released exactly once when the last reference goes.",
  ["histories", "schedules", "fault_sequences"], "every set of pointers, references and failing allocations",
  "tests use a single pointer",
  ["modules/ptrdata/src/ptrdata.c", "modules/ptrdata/src/ptrdata_tx.c"], [("reference-counted map entries", "modules/ptrdata/src")])

# --- out of reach ---------------------------------------------------------------------------------------------------
p("Z01", "Concurrent transactions are serializable",
  "Every concurrent execution of transactions has the effects and results of some sequential order of the committed ones.",
  ["schedules", "programs"], "all programs and all thread interleavings", "tests run a handful of random schedules",
  ["src/picotm_tx.c", "src/picotm-lib-rwlock.c", "modules"], [("strict two-phase locking in every module", "modules")],
  na="a whole-program statement over all interleavings; the available deductive verifier (CBMC code contracts) has no thread-modular logic (no invariants over shared state, no rely/guarantee). Its per-operation "
     "ingredients (exclusion, locks held to the end, all-or-nothing) are decided as L01, T01 to T04, F03, X05, C01 to C03")
p("Z02", "Every transaction eventually commits",
  "A transaction that conflicts is retried and eventually commits or turns irrevocable; no waiting thread is left without a wake-up.",
  ["schedules"], "all fair schedules", "tests cannot show absence of starvation",
  ["src/picotm_lock_manager.c", "src/picotm_tx.c"], [("wait with timeout, irrevocability after ten retries", "src/picotm_tx.c")],
  na="a liveness property over all schedules; contracts with partial-correctness obligations and loop variants of sequential code cannot express fairness")
