#!/usr/bin/env python3
"""Source of properties.jsonl (one json object per line is unpleasant to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

p("A01", "Allocated blocks never overlap, are aligned, and keep their contents",
  "For any history of block allocations and deallocations, every block handed out lies inside the shared region, is aligned to its power-of-two size (at least up to the segment size), and is disjoint from every other live block and from the library's own anchor and control areas. "
  "The bytes a user stores in a live block are never changed by any other allocation, deallocation or heap creation. "
  "This holds no matter how many segments of the region are in use.",
  ["histories", "inputs"],
  "every sequence of block allocations (all sizes from one page up to several segments) and deallocations, including histories that span more than 4 GB of region",
  "The tests allocate a few blocks of two or three sizes in one fixed order and never use more than a segment or two; overlap needs particular split/coalesce orders or very large offsets.",
  ["src/sasalloc.cpp", "src/sassim.cpp", "src/ultree.cpp", "src/sasshm.c"],
  [("power-of-two buddy splitting of free nodes", "sasalloc.cpp SASBlockAlloc/SASBlockAllocNoLock, sassim.cpp p2Alloc"),
   ("free trees keyed by address and size", "ultree.cpp"), ("segment creation and attach", "sassim.cpp/sasshm.c")],
  ["SASBlockAlloc/SASBlockDealloc return values", "bytes of live blocks"])

p("A02", "Freed region space is conserved: nothing leaks, everything coalesces",
  "The reported free and uncommitted space of the region always equals what was reported before, minus what was allocated and plus what was given back. "
  "After any history in which every block has been given back, the region satisfies again the largest request and the same number of equal requests that it satisfied when it was fresh, and the lists of free and uncommitted ranges never overlap each other or a live block.",
  ["histories"],
  "every balanced history of block allocations and deallocations in any order, over any mixture of sizes",
  "The tests free a handful of blocks and do not compare capacity before and after; leaks and missed merges only show after particular orders.",
  ["src/sasalloc.cpp", "src/sassim.cpp", "src/ultree.cpp"],
  [("deallocation with buddy merging", "sasalloc.cpp SASBlockDealloc, sassim.cpp"), ("segment release", "sassim.cpp"), ("free-space lists", "ultree.cpp")],
  ["SASListFreeMem, SASListUncommittedMem, SASListInUseMem family", "success of later SASBlockAlloc calls"])

p("A03", "The store persists: same addresses, same contents after exit or kill",
  "When every process using a store has left, normally or by being killed at any point outside a store update, the next process to join finds every object at the same address with the same bytes, and pointers stored inside the store still lead to their targets. "
  "Containers, their allocators and the region's free space continue from that state, and a region's well-known root objects are found again.",
  ["histories", "crash_points"],
  "every history of container and block updates cut at every operation boundary by a clean exit or by SIGKILL, followed by re-joining",
  "The test-suite has one multi-run script with one fixed history; it does not cut the history at arbitrary points or compare a model with the store afterwards.",
  ["src/sassim.cpp", "src/sasshm.c", "src/sasio.c", "src/sasalloc.cpp"],
  [("file-backed segments mapped at fixed addresses", "sasshm.c/sassim.cpp"), ("anchor block with root pointers", "sasanchr.h, sassim.cpp initRegion"), ("re-attach on join", "sassim.cpp SASJoinRegion")],
  ["contents and addresses seen by a fresh process after SASJoinRegion", "results of container lookups"])

p("A04", "Processes joined to one store share it: visible, consistent, disjoint",
  "All processes joined to the same store see each other's stores to it at the same addresses, including in segments created after they joined. "
  "Blocks allocated concurrently by different processes or threads never overlap, concurrent updates of one shared container through its locked interface behave as some sequential order of them, every call returns with the locks it took given back, and the region's bookkeeping stays consistent.",
  ["schedules", "histories"],
  "every interleaving of allocation, deallocation and container operations by several processes and threads joined to one store",
  "Existing tests run one process at a time; the fork test exercises one fixed pattern.",
  ["src/sassim.cpp", "src/sasalloc.cpp", "src/saslock.cpp", "src/sasshm.c", "src/sassimpleheap.cpp", "src/sasindex.cpp"],
  [("on-demand attach of segments", "sassim.cpp fault handler"), ("region semaphore around allocation", "saslock.cpp, sasalloc.cpp"), ("per-object address locks", "sasulock.cpp")],
  ["addresses returned to each process", "contents read by other processes", "region free lists afterwards"])

p("A05", "Joining, leaving, removing and resetting a store do exactly that",
  "Joining a store that does not exist creates an empty one and joining an existing one attaches to it as it was left, while a store in another directory is entirely independent. "
  "Removing leaves neither files nor system resources of that store behind and later joins start empty; resetting empties the region but leaves it usable at once, with its locks free and still exclusive. "
  "A segment's file is named, created, found and removed by its number or name, in the full size, without replacing an existing file or touching another.",
  ["histories", "configurations"],
  "every sequence of join, clean-up, remove, reset and allocation operations over several store directories",
  "Tests always join once at start and clean up at the end; sequences such as reset-then-lock or remove-then-rejoin are not tried.",
  ["src/sassim.cpp", "src/sasshm.c", "src/sasio.c", "src/sasstname.c", "src/saslock.cpp", "src/sasutil.c"],
  [("region creation and tear-down", "sassim.cpp SASJoinRegion*/SASCleanUp/SASRemove/SASReset"), ("store naming", "sasstname.c"), ("lock memory", "sasshm.c")],
  ["return codes", "files in the store directory", "System V shared memory segments", "allocation and lock behaviour afterwards"])

p("A06", "Running out of region, disk or capacity fails cleanly and changes nothing",
  "A request that cannot be satisfied, because the store directory refuses a new segment file or the region is exhausted, returns a null or error result instead of crashing or blocking. "
  "Everything allocated earlier is intact, the region remains usable by this and other processes, and the same request succeeds once the resource is available again.",
  ["fault_sequences", "histories"],
  "every allocation history with file-creation, file-extension or mapping failures injected at any segment boundary, and every history that exhausts the region",
  "The tests never make a system call fail and never exhaust the region.",
  ["src/sassim.cpp", "src/sasshm.c", "src/sasio.c", "src/sasalloc.cpp"],
  [("segment file creation and error paths", "sasio.c, sasshm.c, sassim.cpp"), ("null returns of the allocator", "sasalloc.cpp")],
  ["return values under injected failures", "liveness of later operations", "contents of live blocks"])

p("B01", "Address locks exclude writers, admit readers, nest and never lose a waiter",
  "For any schedule of lock and unlock calls on any set of addresses, a write lock on an address is held by at most one thread and never together with another thread's read lock, read locks on one address coexist, and locks on different addresses do not exclude each other. "
  "A thread may nest locks it already holds and must release as often as it acquired; when all holders have released, every waiter eventually gets its turn.",
  ["schedules", "histories"],
  "every interleaving of several threads and processes locking several addresses in shared and exclusive mode, with nesting",
  "The lock test runs three threads with sleeps in one order; races between unlock and new waiters need precise interleavings.",
  ["src/sasulock.cpp", "src/saslockl.cpp", "src/sasmlock.cpp", "src/sasulock.h"],
  [("hash of lock lists", "sasmlock.cpp SasMasterLock"), ("lock list with recycled entries", "saslockl.cpp"), ("owner/readers/waiters state and semaphores", "sasulock.cpp")],
  ["SASLock/SASUnlock order observed by threads", "absence of deadlock"])

p("B02", "The region-wide lock is mutually exclusive and always released",
  "At any time at most one process or thread is between taking and giving back the region-wide lock, also right after the region was created, re-joined or reset. "
  "Every library call that takes it internally gives it back on every path, including failure paths, so another process's call always completes.",
  ["schedules", "histories"],
  "every sequence of library calls, successful or failing, by several processes followed by contention for the region-wide lock",
  "No test checks the lock's state after calls, nor contends for it from two processes.",
  ["src/saslock.cpp", "src/sassim.cpp", "src/sasalloc.cpp"],
  [("process-shared semaphore in the lock memory", "saslock.cpp SASSeize/SASRelease"), ("initialisation", "sassim.cpp initRegion/SASReset")],
  ["SASSeize/SASRelease/SASTrySeize behaviour from several processes"])

p("B03", "Atomic operations are atomic over the full width of their operand",
  "Each atomic primitive returns the old value (or success flag) and leaves the new value that the corresponding sequential operation would, for every operand value. "
  "Concurrent use by several threads is equivalent to some sequential order: no update is lost or duplicated.",
  ["inputs", "schedules"],
  "every operand value of every width and every interleaving of several threads on one location",
  "The tests use a few small constants; carries beyond 32 bits and racing updates are not reached.",
  ["src/sasatom.h", "src/sasatom_x86_64.h", "src/sasatom_generic.h", "src/sasatom.c"],
  [("inline assembly and compiler builtins", "sasatom_x86_64.h, sasatom_generic.h")],
  ["return values and memory after each primitive"])

p("C01", "The simple heap hands out disjoint memory and recovers all that is freed",
  "Memory obtained from a simple heap lies inside it, is suitably aligned, does not overlap any other live piece, and is not touched by the heap until it is freed. "
  "A heap's reported free space follows allocations and frees exactly, freeing everything returns it to its initial capacity as one piece, and invalid frees are refused with no effect. "
  "The list of free pieces itself gives the same guarantees to a program that manages memory of its own with it.",
  ["histories", "inputs"],
  "every sequence of allocations, frees in any order and queries, for every heap size and request size, including heaps made by formatting a caller's block",
  "The heap test frees in a few fixed orders with fixed sizes; overlap and lost space depend on size rounding and on the order of frees.",
  ["src/sassimpleheap.cpp", "src/freenode.c"],
  [("address-ordered free list with merging", "freenode.c"), ("bounds checks", "sassimpleheap.cpp")],
  ["returned addresses, free space queries, contents"])

p("C02", "Simple stack and simple space allocate in order, within bounds, exactly",
  "A simple stack hands out consecutive non-overlapping aligned pieces inside its block, a deallocation returns the stack exactly to the state before the matching allocation, and a simple space offers the requested contiguous bytes inside its block and is found again from that address. "
  "Reported depth, free and empty state equal what a model of the history gives, and requests that do not fit are refused with no effect.",
  ["histories", "inputs"],
  "every history of push/pop style allocation with arbitrary sizes and alignments up to and beyond capacity",
  "Tests use one size and do not go past the end.",
  ["src/sassimplestack.cpp", "src/sassimplespace.cpp"],
  [("stack pointer arithmetic with bounds checks", "sassimplestack.cpp"), ("space header and remaining-space queries", "sassimplespace.cpp")],
  ["returned addresses and queries"])

p("C03", "Compound heaps grow, find and reclaim sub-heaps without overlap or leak",
  "Sub-heaps (or queues) carved from a compound heap are disjoint, of the promised size and kind, inside the compound heap or one of its expansions, and an allocation near an existing object lands in the same family. "
  "Freeing a sub-heap makes its space available again, freeing or destroying the compound heap returns every expansion to the region, and its free-space and emptiness reports agree with the history.",
  ["histories", "inputs"],
  "every sequence of sub-heap allocation, near allocation, free and destruction for expanding and fixed compound heaps of any page and sub-heap size",
  "Tests build a handful of sub-heaps once and do not account for the space after destruction.",
  ["src/sascompoundheap.cpp", "src/sphcompoundpcqheap.h"],
  [("expansion list", "sascompoundheap.cpp"), ("locks around each sub-block", "sascompoundheap.cpp"), ("near lookup through block headers", "sasalloc.cpp SASFindHeader")],
  ["returned addresses, reports, region free space after destroy"])

p("C04", "The lock-free heap behaves as an aligned allocator over its block",
  "Every piece obtained from a lock-free heap is inside the heap, aligned as requested, at least as large as requested and disjoint from all other live pieces; its memory is left alone until freed. "
  "An allocation of an admissible size and alignment always returns, and returns null only if no suitable run of units within a group of 64 is free; free-space reports equal the history, and freeing restores it.",
  ["histories", "inputs"],
  "every sequence of plain and aligned allocations and frees, for every heap size, unit size, request size and alignment",
  "Tests use one unit size and regular patterns; fragmentation patterns that break the bit search are not generated.",
  ["src/sphlockfreeheap.cpp", "src/bitv.c", "src/bitv_priv.h"],
  [("bit-vector run search and marking", "bitv.c"), ("unit/bit address arithmetic", "sphlockfreeheap.cpp")],
  ["returned addresses, free-space queries"])

p("C05", "The lock-free heap stays exclusive and lossless under concurrency",
  "However many threads and processes allocate and free concurrently, no two hold overlapping pieces at the same time. "
  "When all have freed what they obtained, the heap reports exactly its initial free space and can hand all of it out again.",
  ["schedules", "histories"],
  "every interleaving of concurrent allocations and frees of various sizes on one heap",
  "The concurrent tests run threads with one pattern and observe only counts; races in the mark/unmark compare-and-swap need particular interleavings.",
  ["src/sphlockfreeheap.cpp", "src/bitv.c", "src/sasatom_x86_64.h"],
  [("compare-and-swap of bit-vector words", "bitv.c")],
  ["ownership observed by each thread; free space at the end"])

p("C06", "A block's owner can be found from any address inside it",
  "From any address inside an object created in a block of the region (heap, compound heap, index, tree, queue, logger), the near/find operations identify that object's block and no other, and allocating or freeing near an address acts on that object only. "
  "For addresses outside any such object the operations return null instead of a wrong object.",
  ["inputs", "histories"],
  "every supported block size, every nesting of blocks inside compound blocks, every interior address, before and after neighbours were freed",
  "Tests probe a few addresses near the start of a few block sizes.",
  ["src/sasalloc.cpp", "src/sassimpleheap.cpp", "src/sascompoundheap.cpp", "src/sphlockfreeheap.cpp"],
  [("search for header eye-catchers at size-aligned addresses", "sasalloc.cpp SASFindHeader"), ("type checks", "sastype.h")],
  ["results of *NearFind, *NearAlloc, *NearDealloc, *FreeSpace"])

p("D01", "The binary-key index is an ordered map",
  "For any history of put, replace, remove and lookup operations, an index returns exactly what an ordered map would: the value last stored for a key, failure for absent keys, refusal of duplicate put, and correct minimum, maximum, count and emptiness. "
  "No operation on one key affects another key's entry, whatever the depth of the tree.",
  ["histories", "inputs"],
  "every sequence of operations over integer, floating, string-like and composite keys, in trees of every depth and node size",
  "The tests insert ascending sequences and delete them once; splits, borrowings and merges at depth three and more depend on order.",
  ["src/sasindex.cpp", "src/sasindexnode.cpp", "src/sasindexkey.h"],
  [("B-tree insertion, split, borrow and combine", "sasindexnode.cpp"), ("count/min/max maintenance", "sasindex.cpp")],
  ["results of SASIndex* calls"])

p("D02", "The string B-tree is an ordered map of strings",
  "For any history of put, replace, remove and lookup operations, a string tree returns exactly what an ordered map over byte strings would: the value last stored for a key, failure for absent keys, refusal of duplicate put, and correct minimum, maximum, count and emptiness. "
  "No operation on one key affects another key's entry, whatever the depth of the tree and the length of the keys.",
  ["histories", "inputs"],
  "every sequence of operations over arbitrary strings in trees of every depth and page size",
  "The tests use a fixed word list in a fixed order; merges at depth three and longer keys that spill are not covered systematically.",
  ["src/sasstringbtree.cpp", "src/sasstringbtreenode.cpp"],
  [("B-tree insertion, split, borrow and combine", "sasstringbtreenode.cpp"), ("key copies near their node", "sasstringbtreenode.cpp")],
  ["results of SASStringBTree* calls"])

p("D03", "Enumeration visits every entry once in key order",
  "Enumerating an index or a string tree yields every entry exactly once in ascending key order with its value, and a start position yields exactly the entries not before it. "
  "While a whole unchanged tree is enumerated, the reported number of remaining entries equals the number still delivered.",
  ["histories", "inputs"],
  "every content reachable by any history of insertions and removals, every start key present or absent",
  "Tests enumerate trees built by ascending insertion only and never from boundary start keys.",
  ["src/sasindexenum.cpp", "src/sasstringbtreeenum.cpp"],
  [("successor search from current key", "sasindexenum.cpp, sasstringbtreeenum.cpp")],
  ["SASIndexEnum*/SASStringBTreeEnum* results"])

p("D04", "Index keys preserve the order and value of what they encode",
  "Building an index key from an integer, floating-point number or tuple of words and reading it back returns the same value, and comparing two keys of one kind gives exactly the natural order of the values they encode. "
  "Comparison over all keys is a total order: reflexive, antisymmetric and transitive.",
  ["inputs"],
  "every value of every supported scalar kind (including negative zero, infinities, extreme integers) and every tuple of words",
  "Tests compare a few positive values.",
  ["src/sasindexkey.h", "src/sasindex.h"],
  [("order-preserving bit transformation", "sasindexkey.h"), ("key comparison", "sasindexkey.h")],
  ["SASIndexKeyInit*/SASIndexKeyReturn*/SASIndexKeyCompare"])

p("D05", "Trees use only their own memory, fail cleanly when full, and release it",
  "An index or tree of fixed capacity refuses an insertion that does not fit, reporting failure, with all earlier entries intact and later removals and insertions working. "
  "Expanding trees take all memory from the region in whole expansions and destroying or freeing them returns every byte.",
  ["histories", "inputs"],
  "every history that drives fixed and expanding trees to exhaustion, with keys of any length, and back",
  "Tests never fill a fixed-capacity tree, and never compare region space before and after.",
  ["src/sasindex.cpp", "src/sasindexnode.cpp", "src/sasstringbtree.cpp", "src/sasstringbtreenode.cpp", "src/sascompoundheap.cpp"],
  [("spill heaps for keys", "sasindexnode.cpp/sasstringbtreenode.cpp"), ("expansion list", "sasindex.cpp/sasstringbtree.cpp")],
  ["return codes; region free lists after destroy; contents"])

p("D06", "A naming context is a one-to-one relation between names and addresses",
  "For any history of adding, renaming and removing associations, looking up a name gives the address bound to it and looking up an address gives its name, both directions always agreeing with each other and with the history. "
  "A refused operation changes nothing, and the root and project contexts found by a later process hold the same associations.",
  ["histories"],
  "every sequence of context operations over colliding names and addresses, including names passed back from the context itself",
  "The test adds and removes each name once in order.",
  ["src/sphcontext.cpp", "src/sphcontext.h"],
  [("paired name and address indexes", "sphcontext.cpp"), ("root/project context pointers", "sphcontext.cpp SPHSetupProjectContext")],
  ["SPHContext* results"])

p("D07", "Tree nodes used on their own keep entries, searches and their memory exact",
  "For any history of initialising, inserting into and deleting from nodes - by hand from a tree's pages, or in a single node of any size - and for the nodes of a tree reached through its root, walking keys and branches gives exactly the entries of the history in key order with all leaves at one depth. "
  "Each of the five node searches (equal, greater, greater-or-equal, less, less-or-equal) finds exactly the key the history gives, or nothing, and the position it returns reads and writes that key's value. "
  "Memory taken from a node lies inside it, never overlaps entries or other live pieces, and comes back exactly when freed; impossible requests and blocks that are no node are refused without effect.",
  ["histories", "inputs"],
  "every sequence of inserts, deletes, searches, value updates, allocations and frees on nodes of any size",
  "The tests reach nodes only through whole trees with one order of insertion.",
  ["src/sasstringbtreenode.cpp", "src/sasindexnode.cpp", "src/sasstringbtree.cpp"],
  [("node search variants", "sasstringbtreenode.cpp SASStringBTreeNodeSearchGT/GE/LT/LE"), ("the node's own heap", "sasindexnode.cpp SASIndexNodeAlloc/FreeNoLock"), ("indexed access", "sasstringbtreenode.cpp Get/PutValIndexed")],
  ["SAS*NodeSearch* positions, Get*Indexed", "SAS*NodeInsert/Delete roots", "SAS*NodeFreeSpace/MaxFragment"])

p("E01", "Loggers keep entries intact, ordered and bounded, also when wrapping",
  "A logger hands out disjoint entries inside its buffer until it is full; a circular logger overwrites only the oldest entries and never mixes two entries. "
  "Iterating a quiescent logger delivers, oldest first, exactly the entries still held up to the first one not yet complete, with the category, thread, time order and payload they were written with; the full, empty and free-space reports agree with the history, and attribute settings never change the logger's kind.",
  ["histories", "inputs"],
  "every sequence of entry allocations of any size or stride, completions, resets, attribute settings and iterations, for sequential and circular loggers",
  "Tests log a few hundred equal entries once; wrap positions, odd strides and attribute combinations are not covered.",
  ["src/sphlflogger.cpp", "src/sphlflogger.h", "src/sphlflogentry.h"],
  [("atomic advance of next-free with wrap", "sphlflogger.cpp"), ("entry headers with length and valid bits", "sphlflogentry.h"), ("iterator", "sphlflogger.cpp")],
  ["SPHLFLogger* results, iterated entries"])

p("E02", "Concurrent loggers never lose or mix entries",
  "However many threads and processes write concurrently to one logger, each entry handed out is owned by exactly one of them and every entry that was completed is found intact afterwards, once, as long as it has not been overwritten by wrapping. "
  "Entries of one thread appear in the order it wrote them.",
  ["schedules"],
  "every interleaving of several writers with entries of different sizes",
  "Tests count entries from parallel writers in a few runs without checking contents under controlled schedules.",
  ["src/sphlflogger.cpp", "src/sphlflogentry.h", "src/sasatom_x86_64.h"],
  [("fetch-and-add/compare-and-swap on next-free", "sphlflogger.cpp")],
  ["iterated entries after writers have joined"])

p("E03", "Entry fields round-trip and never reach outside the entry",
  "Any sequence of typed values put into a log or queue entry and read back with the matching sequence of get calls yields the same values, each at an address aligned for its type. "
  "A put, get or in-place allocation that does not fit in the remaining space of the entry is refused with no effect, so no access ever goes beyond the entry; category, subcategory, time stamp and size read back as given.",
  ["inputs", "histories"],
  "every sequence of put/get/struct/array operations of every type and alignment on entries of every size",
  "Tests put a few fields into roomy entries; boundary fits and alignments are not generated.",
  ["src/sphlflogentry.h", "src/sphlfentry.h"],
  [("inline stream handle with remaining length", "sphlflogentry.h, sphlfentry.h")],
  ["returned codes, pointers and values; bytes of neighbouring entries"])

p("E04", "The single-producer queue is a bounded FIFO",
  "For any sequence of producer and consumer steps the queue delivers exactly the completed entries, in allocation order, each once, with their contents, and it accepts a new entry whenever fewer than its capacity are outstanding and refuses it when full. "
  "An allocated but incomplete entry blocks delivery of later ones; the empty report (nothing can be delivered), the full report and the free space agree with the history, also after reset, in reused memory and after any attribute setting.",
  ["histories", "inputs"],
  "every sequence of allocate, complete, get, free and reset steps through the handle and direct interfaces, for every stride and queue size",
  "Tests run a producer and a consumer in lock step with one stride and never reuse memory or reset.",
  ["src/sphsinglepcqueue.cpp", "src/sphlfentry.h", "src/sphdirectpcqueue.h"],
  [("head/tail pointers and allocated/complete bits", "sphsinglepcqueue.cpp"), ("reset/init", "sphsinglepcqueue.cpp")],
  ["SPHSinglePCQueue* results"])

p("E05", "Queue hand-over is safe between concurrently running producer and consumer",
  "With one producer and one consumer running concurrently, in threads or processes, on any schedule, the consumer receives every entry exactly once, in order, and only after its contents are complete. "
  "The producer never overwrites an entry the consumer has not freed, and neither side blocks forever while the other makes progress.",
  ["schedules"],
  "every interleaving of one producer and one consumer over queues of any capacity, including the smallest",
  "The tests run free-running threads with one entry format; a missing check in a rare interleaving is unlikely to be hit or noticed.",
  ["src/sphsinglepcqueue.cpp", "src/sphlfentry.h", "src/sasatom_x86_64.h"],
  [("valid-bit hand-over with barriers", "sphlfentry.h"), ("wrap check against the head pointer", "sphsinglepcqueue.cpp")],
  ["sequence received by the consumer"])

p("E07", "The multi-party queue is a bounded FIFO that several parties can share",
  "The queue hands out every one of its entries exactly once per round: an entry is allocated only after its previous holder freed it, and is refused only while the next one in line is not free. "
  "Every completed entry is delivered, with its contents, to exactly one consumer, in allocation order; entries taken may be freed in any order; the empty, full, free-space and entry-count reports agree with the history. "
  "A queue that has no room for one entry (no stride, or one larger than its block) hands out none and reports itself full and empty. "
  "With the locked calls any number of producers and consumers may do so at the same time; with the unlocked calls one of each.",
  ["histories", "schedules", "inputs"],
  "every history of allocate, complete, take, free and reset steps, every stride and size, and every interleaving of several producers and consumers",
  "The tests use one stride, free in two fixed orders, and run threads without checking which consumer received what.",
  ["src/sphmultipcqueue.cpp", "src/sphlfentry.h", "src/saslock.cpp"],
  [("head/tail advance under the lock", "sphmultipcqueue.cpp"), ("allocated/valid bits of an entry", "sphlfentry.h")],
  ["SPHMPMCQ* results"])

p("E06", "A log portal routes to exactly its loggers and never beyond",
  "A portal returns the loggers added to it, by index and as current logger, up to its capacity and refuses more with no effect. "
  "Allocating entries through the portal uses its current logger and moves to the next when that one is full; iterating the portal delivers, logger by logger in the order they were added, the entries of each up to its first incomplete one.",
  ["histories", "inputs"],
  "every sequence of adding loggers, writing through the portal until exhaustion, switching, iterating and querying, for every capacity",
  "The test adds a few loggers to a big portal and never fills it.",
  ["src/sphlogportal.cpp", "src/sphlogportal.h"],
  [("logger list with atomic next-free index", "sphlogportal.cpp")],
  ["SPHLogPortal* results"])

p("F01", "Time conversions are exact, monotone and anchored to the system clock",
  "Converting between time-base stamps and seconds, microseconds or calendar time is monotone, consistent with the reported frequency, and inverse to the conversion back up to rounding for every stamp. "
  "Stamps taken in order never run backwards within a thread, and the fast clock replacements agree with the system clock.",
  ["inputs", "histories"],
  "every stamp value and every sequence of clock readings",
  "Tests print or compare a few readings with wide tolerance.",
  ["src/sphtimer.c", "src/sphtimer.h", "src/sphgtod.c", "src/sphgettime.c"],
  [("fixed point conversion by frequency", "sphtimer.c"), ("factor adjustment", "sphtimer.c, sphgtod.c, sphgettime.c")],
  ["sphtimer.h functions, sphgettimeofday/sphgettime results"])

p("F02", "Thread and process identity is right in every thread and after fork",
  "The reported process and thread identifiers always equal those of the calling thread, are unique among live threads, and remain right in a forked child and in threads it creates. "
  "Log and queue entries carry the identity of their writer, and asking for the program's name or command line never leaks resources or overflows.",
  ["histories", "schedules"],
  "every tree of forks and thread creations, querying in any order",
  "Tests query once from threads of one process.",
  ["src/sphthread.c", "src/sphthread.h", "src/sphlflogger.cpp"],
  [("cached per-thread identity", "sphthread.c")],
  ["sphdeGetTID/sphdeGetPID/sphFastGetTID results vs the system's", "open file descriptors"])

p("F03", "Memory advice and synchronisation never change the data",
  "Prefetch, will-need, synchronise and similar advice on any range inside the region succeed or fail without altering any byte or the state of any container. "
  "Data that was synchronised is in the store's files when the call returns.",
  ["inputs", "histories"],
  "every range (any alignment and length) of blocks with arbitrary contents",
  "Tests call the functions on one page-aligned block and look at the return code only.",
  ["src/sasmsync.c", "src/sassim.cpp", "src/sphlflogger.cpp", "src/sphsinglepcqueue.cpp"],
  [("msync/madvise wrappers", "sasmsync.c")],
  ["bytes of blocks and of the store files after the call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
