"""Which harness decides which property."""
QUICK_SECS = 22
THOROUGH_SECS = 600
NOT_CLAIMED = {}
def h(name, variant="plain", w=1): return (name + ".cpp", variant, w)
PROPS = {
 "A01": dict(harness=[h("blocks")],
   rule="a case is a random history of block allocations/deallocations (6 size profiles, 4K..256M, up to ~70 segments); non-trivial: frees happened and more than 4 blocks were live at the end",
   note="Random allocation histories, every returned block checked against the set of live blocks, the region bounds and a fill pattern; sampling, not exhaustive; one process."),
 "A02": dict(harness=[h("blocks")],
   rule="a case is a random balanced history (frees in random order, some as power-of-two pieces) followed by handing the whole free space out again; non-trivial: frees interleaved and more than 4 blocks live before the final freeing",
   note="Random balanced histories, the region's own lists checked to partition the segments after each phase and capacity compared with the fresh region; sampling."),
 "A03": dict(harness=[h("region")],
   rule="a case is a random world (blocks, heaps, indexes, string trees, stacks, a context, linked records) built over several processes in turn, each ended by a clean leave, by exit without leaving, or by SIGKILL after a random operation; non-trivial: two or more sessions and several objects alive at the last check",
   note="A process-independent model of every object is compared with the store by each later process; cuts at every operation boundary; a kill in the middle of an operation is outside the statement; sampling."),
 "A04": dict(harness=[h("region", w=4), h("shared", "sched", w=5), h("trees", w=0.7), h("compound", w=0.7), h("heaps", w=0.4), h("context", w=0.5), h("finds", w=0.5)], time=1.3,
   rule="a case is several processes (and threads) joined to one store, taking turns on one world or working at once on private worlds and shared containers; non-trivial: two or more processes changed the store",
   note="Each process checks the other's objects by address and content; every call of the containers is watched to give back exactly the locks it took; blocks owned by different processes are checked to be disjoint; threads sharing one container under a random deterministic schedule: every history must have a sequential explanation; real processes and threads besides, so those interleavings are sampled."),
 "A05": dict(harness=[h("life")],
   rule="a case is a random history of join, leave, remove, reset, crash, allocation and lock steps by up to three processes over three store directories, compared with a model of files, lock segments and contents; non-trivial: several joins and at least one remove or reset",
   note="Files, System V segments, mappings, descriptors and free lists against a model after every step; sampling."),
 "A06": dict(harness=[h("faults", "fault")],
   rule="a case injects failures (no descriptors, no address space, file size limit, foreign files or directories in the way, store directory gone, failing open/ftruncate/mmap/close/shmget/shmat from the n-th call) into a random history of blocks and objects, or into joins, or drains the region under a growing container, or exhausts the room for the region's own bookkeeping; non-trivial: at least one request was refused",
   note="A request must succeed if the lists show room and be refused otherwise; a refusal must leave lists, files, descriptors, mappings and contents as they were; another process and the same request afterwards must succeed. A full file system behind sparse files (SIGBUS) is out of scope; sampling."),
 "B01": dict(harness=[h("locks", "sched")],
   rule="a case is 2-14 threads with random plans of nested read and write locks on a few (possibly colliding) addresses, run under a random deterministic schedule that can preempt before every memory access of the library; non-trivial: more than 3-4 locks taken",
   note="Random schedules with bounded preemptions over the unmodified lock code, deadlock and livelock detection, exclusion monitored; sequentially consistent memory; threads of one process.",
   technique="property-based testing of concurrent histories under a deterministic, choice-driven scheduler with shrinking"),
 "B02": dict(harness=[h("rlock", "sched", 1), h("rlock", "plain", 1)],
   rule="a case is (schedules) 2-6 threads with random plans of seize/release sections, allocations, frees and listings under a random deterministic schedule, (calls) a history of successful, refused and administrative calls with other processes taking the lock after each, or (contend) processes of threads contending under signals; non-trivial: several sections were run",
   note="Exclusion monitored, refusal and reset paths probed by other processes, lost wake-ups and deadlocks reported; sequentially consistent memory in the scheduler part; sampling.",
   technique="property-based testing of concurrent histories under a deterministic, choice-driven scheduler with shrinking, and of call histories probed by other processes"),
 "C01": dict(harness=[h("heaps")],
   rule="a case is a random history of allocations, frees and invalid requests on one heap (created as a block, or formatted inside a caller's block); non-trivial: several pieces live and several frees",
   note="Interval model with exact free-space oracle, fill patterns in pieces and in the memory around the heap; sampling; single thread."),
 "C02": dict(harness=[h("heaps")],
   rule="a case is a random history of pushes, pops and invalid pops on one stack, or of creations and destructions of several spaces; non-trivial: several pops (or destructions) with several pieces still live",
   note="Exact top-of-stack model and fill patterns; sampling; single thread."),
 "C03": dict(harness=[h("compound")],
   rule="a case is a random history of sub-heap, queue and page allocations, near allocations, frees, invalid frees and expansions on one compound heap (fixed or expanding, several page sizes, new or used block); non-trivial: several sub-heaps live and several freed",
   note="Interval model of every sub-heap and of the region's bytes in use, fill patterns; sampling; single thread."),
 "C04": dict(harness=[h("lfheap")],
   rule="a case is a random history of plain, near and aligned allocations, frees by every entry point and invalid frees on one heap (units 16..4096, new or in a caller's block), a list of creations of arbitrary sizes, or a history on one bit vector; non-trivial: several frees with several pieces live",
   note="Exact model of the units: a null result is an error if a run within a group of 64 is free; fill patterns, free-space reports; sampling; single thread."),
 "D01": dict(harness=[h("trees")],
   rule="a case is a random history of single and bulk puts, replaces, removes and lookups over one of 6 key universes (up to 6000 keys, up to 15 words, edge values), compared with an ordered map after every step; non-trivial: more than 5 entries at the end",
   note="Model-based random histories against std::map, trees up to four levels, locked and lock-free entry points mixed, recycled memory; sampling; single thread."),
 "D02": dict(harness=[h("trees")],
   rule="a case is a random history of single and bulk puts, replaces, removes and lookups over one of 7 key universes (empty string, every byte value, shared prefixes, keys up to and beyond 511 bytes), compared with an ordered map after every step; non-trivial: more than 5 entries at the end",
   note="Model-based random histories against std::map, trees up to four levels, locked and lock-free entry points mixed, recycled memory; sampling; single thread."),
 "D03": dict(harness=[h("trees")],
   rule="a case builds a tree by a random history and enumerates it whole, from random start keys and while it is changed; non-trivial: more than 3 entries",
   note="Enumerations compared entry by entry with an ordered map; while the tree changes, every entry present throughout must be seen exactly once in order; sampling."),
 "D04": dict(harness=[h("trees")],
   rule="a case is 120-200 random key pairs/triples (boundary values, neighbouring values, infinities, denormals, tuples of 1-15 words); every case is non-trivial",
   note="Round trip and order against the native order of the encoded values; total-order laws on random triples; sampling; NaN excluded."),
 "D05": dict(harness=[h("trees")],
   rule="a case fills a fixed tree until it refuses and empties it again (several rounds), or runs histories on expanding trees and destroys them, or takes and returns pages by hand; non-trivial: refusal reached, an expansion happened, or all pages were out",
   note="Contents against an ordered map, free space and the region's bytes in use against the history; keys of one size up to 32 bytes in fixed trees (longer keys: known finding); sampling."),
 "D06": dict(harness=[h("context")],
   rule="a case is a random history of adding, renaming, looking up and removing names and addresses in one or several contexts; non-trivial: more than 3 bindings existed and some were changed or removed",
   note="Two-way map model compared after every step; contexts, project contexts and destruction; sampling; single thread."),
 "D07": dict(harness=[h("trees")],
   rule="a case is a history on nodes: the nodes of a tree after random histories through the tree, a tree built by hand from pages, or a single node's entries and its own heap; non-trivial: more than one node was walked, levels were added, or a single node held several entries or pieces",
   note="Walk of every node and all five searches against an ordered map; exact accounting of a node's heap; nodes of the index are reached through a function the installed headers do not declare, so that part runs only where the library has it; sampling; single thread."),
 "E01": dict(harness=[h("loggers")],
   rule="a case is a random history of stamped, raw and strided allocations (locked and lock-free-of-charge entry points), completions, resets, attribute settings, re-initialisations and iterations (open iterators included) on one logger; non-trivial: more than 10 entries were handed out",
   note="Exact model of every entry's place, size, category, writer, stamp bounds and payload; wrap of circular loggers with any stride, new and recycled memory; sampling; single thread."),
 "E03": dict(harness=[h("entries")],
   rule="a case is a random sequence of typed puts (every type, strings, blocks, in-place structures and arrays) into log or queue entries of random size, read back with the matching gets; non-trivial: several values were stored or refused",
   note="Exact layout model (alignment, remaining space), neighbouring bytes checked after every step; sampling."),
 "E04": dict(harness=[h("queues")],
   rule="a case is a random history of allocations (plain, stamped, direct, raw, spinning), completions out of order, gets by all five calls, frees, resets, prefetch settings, re-initialisations and visits by another process on one queue of random stride and size; non-trivial: more than 4 entries were consumed",
   note="Exact model of the slots; fill patterns; type checks; new and recycled memory; sampling; single thread (the schedules are E05)."),
 "E05": dict(harness=[h("queues", "sched")],
   rule="a case is a producer, a consumer and sometimes an observer with random plans (all entry kinds, all calls, reports in between), run under a random deterministic schedule that can preempt before every memory access of the library; non-trivial: more than 2 entries and the queue wrapped or refused",
   note="Order, contents and reports checked against bounds known at the time of each call; livelock and deadlock reported; sequentially consistent memory; sampling.",
   technique="property-based testing of concurrent histories under a deterministic, choice-driven scheduler with shrinking"),
 "E07": dict(harness=[h("queues"), h("queues", "sched")],
   rule="a case is (histories) a random single-threaded history as in E04 with frees in any order, or (schedules) 1-3 producers and 1-3 consumers under a random deterministic schedule; non-trivial: more than 4 (2) entries were consumed",
   note="Exact slot model; concurrent runs checked for exactly-once delivery, real-time order and no reuse before the free; sequentially consistent memory; sampling.",
   technique="model-based property testing, and concurrent histories under a deterministic, choice-driven scheduler with shrinking"),
 "E06": dict(harness=[h("loggers")],
   rule="a case is a random history of creating and adding loggers, allocating through the portal and directly, completing, querying and iterating; non-trivial: several entries went through a portal of two or more loggers",
   note="A portal is compared with a list of exact logger models; overfull lists, refused additions, switching only from a full logger; sampling; single thread."),
 "E02": dict(harness=[h("writers", "sched", 3), h("writers", "plain", 1)],
   rule="a case is 1-4 writers (and sometimes logger-adding threads) with random plans of sized, raw and strided allocations, delayed completions and resets on one logger, circular logger or portal, run under a random deterministic schedule, or (stress) free-running threads and processes; non-trivial: several writers and more than 3 entries",
   note="Every entry's place checked against those handed out, contents and delivery checked afterwards entry by entry; circular reuse only after completion; sequentially consistent memory in the scheduler part; sampling.",
   technique="property-based testing of concurrent histories under a deterministic, choice-driven scheduler with shrinking"),
 "C05": dict(harness=[h("lfheap", "sched", 3), h("lfheap", "plain", 1)],
   rule="a case is 2-4 threads with random plans of plain, near and aligned allocations and frees by every entry point on one lock-free heap, run under a random deterministic schedule, or (stress) free-running threads and processes; non-trivial: several threads allocated",
   note="Pieces disjoint at all times, contents intact, free space exact once quiet; a null result under contention is allowed; sequentially consistent memory in the scheduler part; sampling.",
   technique="property-based testing of concurrent histories under a deterministic, choice-driven scheduler with shrinking"),
 "B03": dict(harness=[h("atomics", "plain", 2), h("atomics", "sched", 2)],
   rule="a case is a random sequence of atomic operations on boundary values compared with a model, a history of 2-4 threads under a random deterministic schedule that must be linearizable, spin-lock sections that must exclude each other, or free-running threads and processes whose totals must come out; every concurrent case with two or more threads is non-trivial",
   note="The x86-64 and the generic implementations; exact values single-threaded, linearizability by search on random schedules, conservation under real concurrency (the scheduler treats one inline-assembly instruction as one step); other architectures' headers are not compiled here.",
   technique="model-based property testing, linearizability of histories under a choice-driven scheduler, and conservation under real concurrency"),
 "F01": dict(harness=[h("timers", "timers")],
   rule="a case is 40-140 random stamp/factor pairs (boundaries of seconds and microseconds, extremes) converted both ways, or random sequences of clock readings by several threads or processes bracketed by the time base, or new processes whose conversion factors are compared with the system's clocks; every case is non-trivial",
   note="Exact integer oracle for the conversions; brackets for the readings; factors of new processes within 2 ms of the clocks (best of up to 12 starts); x86-64 clock source only."),
 "F02": dict(harness=[h("identity")],
   rule="a case is a random tree of forks and threads (up to 14 nodes, forks from threads included) in which every node asks for its identity and writes log and queue entries at random points, or a program started with a random command line; non-trivial: more than one process or thread besides the first",
   note="Compared with what the system says at the same point; open files counted; raw clone() without fork handlers is out of scope; sampling."),
 "F03": dict(harness=[h("advice", "sync")],
   rule="a case is a random sequence of advice and synchronisation calls on random ranges of blocks with random contents and containers (system calls recorded, some made to fail), on whole compound heaps, prefetches of containers, or advice while others write; every case of ranges is non-trivial",
   note="Bytes compared before and after; a synchronous call must have synchronised every byte of its range before it returns and must not report success when the system refused; that the disk itself kept the data is not observable here; sampling."),
 "C06": dict(harness=[h("finds")],
   rule="a case is a random history of creating and destroying blocks, heaps, stacks, spaces, compound heaps, queues, indexes, string trees, contexts, lock-free heaps, loggers and portals, nested in one another, with lookups, near allocations and near frees at random interior and exterior addresses in between; non-trivial: several objects were alive and queried",
   note="A model of the live blocks predicts what every find and near operation has to return; the exact free spaces tell which object was acted upon; queries only inside allocated segments; sampling; single thread."),
}
