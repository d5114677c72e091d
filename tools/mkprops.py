#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os
L = "libconcurrent/"
def C(*n): return [L + "concurrent/%s.c" % x for x in n]
def P(*n): return [L + "primitives/%s.c" % x for x in n]
def I(*n): return [L + "includes/%s.h" % x for x in n]
S, CP, IN, CFG, H, F, PR = "schedules", "crash_points", "inputs", "configurations", "histories", "fault_sequences", "programs"
TESTS = ("The tests run 28 benchmarks once per thread count on the host's own scheduler and compare DEBUG operation counters; ")
rows = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    rows.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                 "why_tests_cant": why, "anchors": a})

prop("C01", "Combining objects apply every request exactly once, linearizably",
 "For the CC-Synch, DSM-Synch, H-Synch, Oyama and flat-combining objects, every request completes and is applied to the sequential object exactly once, with the argument and thread id its caller gave and never while another request is being applied, and the caller receives exactly the value its own request returned. The order in which requests are applied respects real time: a request that returned before another was issued is applied first.",
 [S, IN, CFG, H], "every interleaving of any number of threads and requests, every assignment of threads to NUMA nodes, every stall of a helper, combiner or waiter, and every argument value",
 TESTS + "they never compare a caller's return value with its own request, and reach only the interleavings an idle 8-core host produces.",
 C("ccsynch", "dsmsynch", "hsynch", "oyama", "fc") + I("ccsynch", "dsmsynch", "hsynch", "oyama", "fc"),
 [("swap-based announce list, locked/completed hand-over to the next combiner", L+"concurrent/ccsynch.c CCSynchApplyOp; dsmsynch.c DSMSynchApplyOp; hsynch.c HSynchApplyOp"),
  ("per-node combining lists serialised by a central queue lock", L+"concurrent/hsynch.c"), ("lock + CAS announce stack", L+"concurrent/oyama.c OyamaApplyOp"), ("publication list under a try-lock", L+"concurrent/fc.c FCApplyOp")],
 [("request node", "argument/result, owner, locked and completed flags", L+"includes/ccsynch.h CCSynchNode and its siblings")],
 ["the sequential function passed to *ApplyOp", "return value of *ApplyOp"])
prop("C02", "Osci with fibers applies every request exactly once, linearizably",
 "For the Osci object used by any mix of threads and fibers, every request completes and is applied to the sequential object exactly once, with its caller's argument and id, never while another request is being applied, and the caller receives its own request's result. The order of application respects real time.",
 [S, IN, CFG, H], "every interleaving of threads, every point at which a fiber yields to a sibling, every fibers-per-thread group size and every stall",
 TESTS + "fibers are run with one group size (4) on schedules the host happens to produce and results are never compared.",
 C("osci") + P("uthreads") + I("osci", "uthreads"),
 [("per-group announce record with an opened/locked door", L+"concurrent/osci.c OsciApplyOp"), ("cooperative fiber switch inside waiting loops", L+"primitives/uthreads.c synchFiberYield")],
 None, ["sequential function passed to OsciApplyOp", "return value of OsciApplyOp"])
prop("C03", "Sim and LFUObject universal constructions are linearizable",
 "Every request on the wait-free Sim object and on the lock-free LFUObject takes effect exactly once, at one instant between its call and its return, on the latest state of the object, and its caller receives the result computed at that instant. This stays true for requests whose thread stops forever halfway: each such request takes effect once or never.",
 [S, CP, CFG, H], "every interleaving, every crash point of any subset of threads, every number of threads including more threads than one machine word has bits, and many reuses of the internal state records",
 TESTS + "only a total count is compared, the lock-free object is never run, and no test stops a thread in the middle of a request or validates results.",
 C("sim", "lfuobject") + I("sim", "lfuobject", "tvec"),
 [("announce array + toggle vector by Fetch&Add, private state copy, timestamped CAS on the state index", L+"concurrent/sim.c SimApplyOp"), ("read-compute-CAS loop", L+"concurrent/lfuobject.c LFUObjectApplyOp")],
 [("state record pool", "applied toggles, results and object state", L+"includes/sim.h SimObjectState")], ["SimApplyOp", "LFUObjectApplyOp"])
prop("C04", "Blocking queues are linearizable FIFO queues",
 "CC-Queue, DSM-Queue, H-Queue, OsciQueue and FC-Queue each behave, for any concurrent enqueues and dequeues, like one sequential FIFO queue whose operations take effect one at a time between call and return: every operation completes, no value is lost, duplicated, invented or reordered, and a dequeue returns the documented empty result exactly when the queue is empty at that instant. This holds while nodes are being recycled.",
 [S, IN, CFG, H], "every interleaving of enqueuers and dequeuers (which use separate locks), every value other than the two documented reserved ones, every recycling history, topology and fiber count",
 TESTS + "the queue benchmarks enqueue and dequeue in pairs and check only that the combining counters add up, never a dequeued value.",
 C("ccqueue", "dsmqueue", "hqueue", "osciqueue", "fcqueue") + I("ccqueue", "dsmqueue", "hqueue", "osciqueue", "fcqueue", "queue-stack"),
 [("two combining instances over one guarded linked list", L+"concurrent/ccqueue.c serialEnqueue/serialDequeue and siblings"), ("thread-local node pool with recycling", L+"primitives/pool.c")],
 None, ["*Enqueue / *Dequeue call and return"])
prop("C05", "Lock-free and wait-free queues are linearizable FIFO queues",
 "MS-Queue, LCRQ and SimQueue each behave, for any concurrent enqueues and dequeues, like one sequential FIFO queue whose operations take effect one at a time between call and return: no value is lost, duplicated, invented or reordered, and a dequeue returns the documented empty result exactly when the queue is empty at that instant. An operation whose thread stops forever takes effect once or never and does not disturb the others.",
 [S, CP, IN, CFG, H], "every interleaving, every crash point, every ring size and ring close, more threads than one machine word has bits, and every non-reserved value",
 TESTS + "MS-Queue is not in the test list at all, rings never fill or close with the default 2^14 size, and dequeued values are never checked.",
 C("msqueue", "lcrq", "simqueue") + I("msqueue", "lcrq", "simqueue", "tvec", "queue-stack"),
 [("two-CAS enqueue with tail helping", L+"concurrent/msqueue.c"), ("ring cells with index/unsafe bits, closed rings linked in a list, 128-bit CAS", L+"concurrent/lcrq.c"), ("separate enqueue and dequeue state records published by timestamped CAS", L+"concurrent/simqueue.c")],
 None, ["*Enqueue / *Dequeue call and return"])
prop("C06", "Blocking stacks are linearizable LIFO stacks",
 "CC-Stack, DSM-Stack, H-Stack, OsciStack and FC-Stack each behave, for any concurrent pushes and pops, like one sequential LIFO stack whose operations take effect one at a time between call and return: every operation completes, no value is lost, duplicated, invented or out of order, and a pop returns the documented empty result exactly when the stack is empty at that instant. This holds for every value that is not one of the two documented reserved ones and while nodes are being recycled.",
 [S, IN, CFG, H], "every interleaving of pushes and pops, every non-reserved value, every recycling history, topology and fiber count",
 TESTS + "the stack benchmarks run push/pop pairs with small values and never check a popped value.",
 C("ccstack", "dsmstack", "hstack", "oscistack", "fcstack") + I("ccstack", "dsmstack", "hstack", "oscistack", "fcstack", "queue-stack"),
 [("one combining instance over a linked list; pop encoded as a reserved argument", L+"concurrent/ccstack.c and siblings"), ("thread-local node pool with recycling", L+"primitives/pool.c")],
 None, ["*Push / *Pop call and return"])
prop("C07", "Lock-free and wait-free stacks are linearizable LIFO stacks",
 "LF-Stack and SimStack each behave, for any concurrent pushes and pops, like one sequential LIFO stack whose operations take effect one at a time between call and return: no value is lost, duplicated, invented or out of order, and a pop returns the documented empty result exactly when the stack is empty at that instant. An operation whose thread stops forever takes effect once or never and does not disturb the others, and recycling of popped nodes never makes a value reappear or vanish.",
 [S, CP, IN, CFG, H], "every interleaving, every crash point, every node-recycling history, more threads than one machine word has bits, and every non-reserved value",
 TESTS + "LF-Stack is never executed by the tests and SimStack's results are never checked.",
 C("lfstack", "simstack") + I("lfstack", "simstack", "tvec", "queue-stack"),
 [("Treiber CAS loop without node reuse", L+"concurrent/lfstack.c"), ("speculative private state copy validated against the published index; recycling only of nodes popped by the winning CAS", L+"concurrent/simstack.c")],
 None, ["*Push / *Pop call and return"])
prop("C08", "CLH and MCS locks give mutual exclusion in arrival order",
 "At most one thread is ever between acquiring and releasing a CLH or MCS lock, every acquisition completes once the earlier holders release, and everything the previous holder wrote inside is visible to the next holder. Threads are served in the order in which they joined the queue: a thread that was already waiting is never overtaken by one that called later and found it waiting.",
 [S, CFG, H], "every interleaving of acquire and release by any number of threads on any number of locks, and every stall of a holder or waiter, including store-buffer delays of an x86 machine",
 TESTS + "the lock benchmarks check a counter total on whatever overlap the host produces and never the order of service.",
 C("clh", "mcs") + I("clh", "mcs"),
 [("implicit queue by SWAP on Tail, spin on predecessor's node, node exchange on release", L+"concurrent/clh.c"), ("explicit queue, link then spin on own node, CAS Tail to empty on release", L+"concurrent/mcs.c")],
 None, ["CLHLock/CLHUnlock, MCSLock/MCSUnlock"])
prop("C09", "Hash tables are linearizable maps",
 "CLH-Hash and DSM-Hash behave, for any concurrent inserts, searches and deletes with any 64-bit keys and any number of cells, like one sequential key set whose operations take effect one at a time between call and return: a search finds a key exactly when it was inserted and not deleted since, an insert reports success, and an operation on one key never affects another. Every operation completes.",
 [S, IN, CFG, H], "every interleaving of operations by any number of threads, every key (negative ones and colliding ones included), every chain length and every position in the chain",
 TESTS + "the hash benchmarks only count executed combining rounds; no search result is compared with what was inserted or deleted.",
 C("clhhash", "dsmhash", "clh", "dsmsynch") + I("clhhash", "dsmhash"),
 [("one lock or combining instance per cell, announce slot per thread", L+"concurrent/clhhash.c; dsmhash.c serialOperations")],
 None, ["*HashInsert / *HashSearch / *HashDelete call and return"])
prop("C10", "Sim, SimQueue and SimStack are wait-free",
 "Every operation on the Sim object, SimQueue or SimStack returns after a number of its own steps bounded by a function of the number of threads, whatever the other threads do. In particular it returns although any number of other threads have stopped forever, or are arbitrarily slow or fast, at any point of their own operations.",
 [S, CP, F, CFG], "every adversarial schedule and every set of crash and stall points of the other threads",
 TESTS + "no test stops or delays a thread inside an operation, so a blocking or unbounded retry loop would still pass.",
 C("sim", "simqueue", "simstack") + I("sim", "simqueue", "simstack", "tvec"),
 [("two attempts suffice because a competing success must have applied all announced requests", L+"concurrent/sim.c SimApplyOp; simqueue.c; simstack.c")],
 None, ["operation call and return"])
prop("C11", "MS-Queue, LF-Stack, LFUObject and LCRQ are lock-free",
 "Whenever threads keep taking steps inside operations on MS-Queue, LF-Stack, LFUObject or LCRQ, some operation completes within a bounded number of their steps, and a thread that runs alone completes its operation within a bounded number of its own steps. No thread that stops forever at any point can prevent the others from completing all their operations.",
 [S, CP, F, CFG], "every adversarial schedule and every set of crash points of the other threads",
 TESTS + "no test stops a thread inside an operation, so an object that waits for a stopped thread would still pass.",
 C("msqueue", "lfstack", "lfuobject", "lcrq") + P("backoff") + I("msqueue", "lfstack", "lfuobject", "lcrq"),
 [("helping the lagging tail", L+"concurrent/msqueue.c"), ("a failed CAS implies another operation's success", L+"concurrent/lfstack.c; lfuobject.c"), ("ring closing after bounded tries, bounded wait for a slow enqueuer", L+"concurrent/lcrq.c")],
 None, ["operation call and return"])
prop("C12", "No blocking operation hangs once all threads get to run",
 "If every thread keeps getting processor time after an arbitrary period of unfair scheduling, then every operation on every lock, combining object, blocking queue, blocking stack and hash table returns within a bounded number of scheduling rounds: no hand-over or wake-up is ever lost. This holds for any placement of threads on cores, for oversubscribed systems and for fibers that share a thread.",
 [S, F, CFG], "every unfair prefix of a schedule (stalls, bursts, delayed stores) followed by any fair one, for every configuration of threads, fibers, cores and NUMA nodes",
 TESTS + "a lost hand-over needs a particular interleaving at the end of a combining or lock queue, which a few hundred benchmark runs on an idle host rarely meet.",
 C("clh", "mcs", "ccsynch", "dsmsynch", "hsynch", "osci", "oyama", "fc", "clhhash", "dsmhash") + P("threadtools", "uthreads"),
 [("successor hand-over on release", L+"concurrent/*.c"), ("yield or fiber switch inside waiting loops", L+"primitives/threadtools.c synchResched")],
 None, ["operation call and return"])
prop("C13", "The barrier separates rounds for ever",
 "No thread returns from its k-th wait on a barrier set for n threads before all n threads have called their k-th wait, and once all have called it all return. This holds for any number of consecutive rounds on the same barrier, for n = 1, after the barrier is set again, and what a thread wrote before waiting is visible to every thread that returns. A last-leave returns only when every other thread has left and no longer touches the barrier, so that it may be set again or released at once.",
 [S, CFG, H], "every interleaving of every number of threads over any number of rounds, including threads that run ahead into the next round and delayed stores",
 TESTS + "each benchmark waits on its barrier two or three times in nearly lock-step and never checks that nobody passed early.",
 P("barrier") + I("barrier"), [("arrive and leave counters by Fetch&Add with two phase flags", L+"primitives/barrier.c synchBarrierWait")],
 [("arrive/leave/flags", "phase state", L+"includes/barrier.h SynchBarrier")], ["synchBarrierWait call and return"])
prop("C14", "Started threads run once with distinct ids and join waits for all",
 "Starting N threads (or N fibers spread over threads) runs the given function exactly once for each id 0..N-1, the id a running thread or fiber asks for is the one it was given for as long as it runs, and joining returns only after every one of those functions has returned. This holds for every later start/join round of the same program, whatever numbers and modes earlier rounds used.",
 [S, PR, CFG, H], "every interleaving of starting, running and finishing threads, every sequence of start/join rounds with varying thread and fiber counts, every core count",
 TESTS + "every benchmark starts and joins exactly once, then exits.",
 P("threadtools", "uthreads", "barrier") + I("threadtools"),
 [("wrapper functions set the thread id and leave a shared barrier", L+"primitives/threadtools.c kthreadWrapper/uthreadWrapper"), ("join waits for that barrier", L+"primitives/barrier.c synchBarrierLastLeave")],
 None, ["synchStartThreadsN", "synchJoinThreadsN", "synchGetThreadId"])
prop("C15", "Fibers run once each, share their thread fairly and keep their state",
 "Every fiber spawned inside a thread runs its function exactly once, no more than the configured maximum exist, and waiting for all fibers returns only when all have finished. A yield gives every other unfinished fiber of the thread a turn before the yielding fiber runs again and preserves each fiber's local variables, and the memory of finished fibers is given back.",
 [S, PR, CFG], "every number of fibers, every pattern of yields and every order of fiber completion, in any number of threads at once",
 TESTS + "fibers are exercised with one count and one symmetric workload, where all fibers finish in order.",
 P("uthreads", "threadtools") + I("uthreads"), [("round-robin switch over the active slots", L+"primitives/uthreads.c synchFiberYield, fiber_start_func")],
 None, ["synchSpawnFiber", "synchFiberYield", "synchWaitForAllFibers"])
prop("C16", "Memory pools hand out distinct objects and give everything back",
 "An object handed out by a pool is inside memory the pool owns, has the requested size and overlaps no other object handed out and not yet recycled or rolled back. A rollback of the last k allocations makes exactly those k available again, a recycled object is reused before new memory is taken, and destroying a pool returns to the system every byte it ever took, also when several blocks were needed.",
 [PR, IN, CFG, F], "every sequence of allocate, recycle, rollback and destroy, every object size, block-boundary crossings, every recycling configuration and every concurrent use of distinct pools",
 TESTS + "no test calls rollback across blocks or destroy, and nothing checks objects for overlap.",
 P("pool") + I("pool"), [("bump allocation in linked blocks plus a recycle list", L+"primitives/pool.c")],
 None, ["synchAllocObj", "synchRecycleObj", "synchRollback", "synchDestroyPool"])
prop("C17", "Stacks and queues with reclamation run in bounded memory",
 "In every stack and queue documented as supporting memory reclamation, the storage of every removed element becomes available again to the thread that carried out the removal, whoever requested it: no storage is lost under any schedule, and a thread working alone that inserts and removes alternately takes no new memory however long it runs. An operation that only looks for or takes away elements (dequeue, pop, and search and delete of the two hash tables) never takes storage for an element. With recycling switched off in the configuration the same objects stay correct.",
 [S, H, CFG], "every interleaving of balanced workloads of any length, for each documented object",
 TESTS + "nothing measures memory, and 32 MB pool blocks hide a missing recycle for a million operations.",
 C("ccqueue", "dsmqueue", "hqueue", "osciqueue", "fcqueue", "ccstack", "dsmstack", "hstack", "oscistack", "fcstack", "simstack", "clhhash", "dsmhash") + P("pool"),
 [("removed node handed to the executing thread's pool", L+"concurrent/*queue.c serialDequeue, *stack.c serialPushPop, simstack.c recycleList")],
 None, ["node addresses used by the object and bytes taken from the system"])
prop("C18", "Atomic primitives are atomic, emulated ones included",
 "Each compare-and-swap (32, 64, pointer and 128 bit), fetch-and-add (32 and 64 bit), swap and bit-test-and-set primitive reads and updates its location in one indivisible step and reports the value or success of exactly that step. The same holds when fetch-and-add or swap is configured to be emulated by compare-and-swap.",
 [S, IN, CFG, H], "every interleaving of any primitives by any number of threads on the same or adjacent locations, every value including wrap-around, and every emulation setting",
 TESTS + "the fetch-and-add benchmark compares one total in the native configuration; emulation and 128-bit results are not checked.",
 P("primitives") + I("primitives"), [("compiler builtins / cmpxchg16b / CAS retry loops", L+"primitives/primitives.c")],
 None, ["synchCAS*, synchFAA*, synchSWAP, synchBitTAS64 return values"])
prop("C19", "Running out of memory or threads stops the program, never corrupts it",
 "When the system refuses a memory request or the creation of a thread, the library ends the program with a failure status and a message before anything uses the missing resource; it never continues with an invalid pointer, a missing participant or a wrong result. When only pinning a thread to a core is refused, everything still works.",
 [F, CP, CFG], "every position at which the n-th allocation, thread creation or affinity call of any object's set-up or operation fails",
 TESTS + "no test makes an allocation, a thread creation or an affinity call fail.",
 P("primitives", "threadtools", "pool", "uthreads") + C("lcrq"), [("NULL checks with exit", L+"primitives/primitives.c synchGetMemory/synchGetAlignedMemory"), ("return-code check of thread creation", L+"primitives/threadtools.c synchStartThreadsN")],
 None, ["process exit status", "results of surviving runs"])
prop("C20", "No object touches memory it does not own, in any configuration",
 "For every object of the library, every number of threads it was created for, and every machine topology, placement policy, NUMA setting and fiber count, no operation reads or writes outside live memory obtained for that object or its users, and memory is released only in the form it was obtained. This includes initialisation, growth, recycling and shutdown paths.",
 [CFG, S, IN], "every combination of thread count, fibers per thread, core count, NUMA nodes, SMT layout, placement policy, H-Synch region count, allocator, and every interleaving",
 TESTS + "they run on one host topology with 1 to 8 threads and two NUMA settings, without memory checking; page-granular allocation hides small overruns.",
 C("hsynch", "osciqueue", "oscistack", "osci", "clhhash", "dsmhash", "sim", "simqueue", "simstack") + P("threadtools", "pool", "primitives", "uthreads") + I("tvec"),
 [("array sizes derived from thread, node and fiber counts", L+"concurrent/hsynch.c HSynchStructInit/ThreadStateInit; osciqueue.c; tvec.h")],
 None, ["every memory access of the library"])
prop("C21", "DEBUG statistics count exactly what happened",
 "In a DEBUG build the served-request counters of an object equal the number of completed requests, and after joining the threads the totals of compare-and-swaps (executed, failed), swaps and fetch-and-adds equal what the threads executed. No count is lost or doubled under any schedule, and statistics collection changes no result.",
 [S, CFG, H], "every interleaving of any number of threads, with native and emulated primitives",
 TESTS + "the totals are compared with the request count once per run on the host's schedules, and CAS, SWAP and FAA totals are only printed.",
 P("stats", "primitives", "threadtools") + C("ccsynch", "dsmsynch", "hsynch", "osci", "oyama", "fc", "sim", "simqueue", "simstack"),
 [("thread-local counters summed by Fetch&Add when a thread stops", L+"primitives/stats.c synchStopCPUCounters"), ("counter incremented by the combiner", L+"concurrent/*.c under DEBUG")],
 None, ["object counters and synchPrintStats output"])
prop("C22", "Objects used together do not disturb each other",
 "A thread may use any number of instances of the library's objects, of the same or of different kinds and sizes, in any order and nested inside one another's critical sections where the caller holds a lock, and each instance still behaves as it would alone. Creating or initialising one instance never changes the behaviour of another that is in use.",
 [PR, S, CFG], "every combination of instances and kinds, every order of initialisation and use, every interleaving",
 TESTS + "every benchmark creates one object and uses nothing else.",
 C("hsynch", "ccqueue", "dsmqueue", "hqueue", "ccstack", "dsmstack", "hstack", "fcqueue", "fcstack", "osciqueue", "oscistack") + P("pool", "threadtools"),
 [("per-instance thread state versus thread-local globals (node pools, NUMA node of thread)", L+"concurrent/hsynch.c node_of_thread; *queue.c/*stack.c pool_node")],
 None, ["results of operations on each instance"])
prop("C23", "Time reported to callers never runs backwards",
 "The millisecond clock reported by the library is the system's monotonic time: successive readings, on any thread, never decrease and differ by the elapsed time to within one millisecond, whatever happens to the wall clock. If the system clock cannot be read the call still returns instead of failing the program.",
 [F, S], "every sequence of wall-clock jumps, clock failures, suspensions and thread migrations between readings",
 "No test reads the clock twice with an assertion, nor moves the wall clock.",
 P("primitives"), [("monotonic clock source, seconds and nanoseconds combined", L+"primitives/primitives.c synchGetTimeMillis")], None, ["synchGetTimeMillis"])
prop("C24", "Every thread is placed on an existing core and NUMA node",
 "For every machine (number of online processors, NUMA nodes, SMT layout), every placement policy and every thread id, the library pins the thread to an online processor and reports an existing NUMA node for it, without failing. The reported node is the one the chosen processor belongs to on regular machines, and the dense, sparse and flat policies use all processors before sharing one.",
 [CFG, F], "every topology the operating system can report, every policy value (unsupported ones included), every thread id and refusal of the affinity call",
 TESTS + "they run on the one topology of the test host with the default policy.",
 P("threadtools") + I("threadtools"), [("arithmetic over processors per node and SMT detection", L+"primitives/threadtools.c synchPreferredCoreOfThread, synchPreferredNumaNodeOfThread")],
 None, ["sched_setaffinity argument", "synchGetPreferredCore", "synchGetPreferredNumaNode"])
prop("C25", "Every thread has its own random numbers, inside the requested range",
 "After a thread sets a seed, the numbers the pseudo-random helpers give it are determined by that seed and by the calls of that thread alone, whatever other threads draw or seed in the meantime. Every number lies inside the range the helper documents or the caller asked for, for every seed and range, and no seed leaves a generator repeating the same number or the same half of it for ever.",
 [IN, S], "every seed and every pair of bounds, every interleaving of the calls of several threads", "No test looks at the numbers; the benchmarks only use them to vary their local work.",
 P("fastrand") + I("fastrand"), [("generator state is thread-local; degenerate seeds are stepped over; scaling to the range", L+"primitives/fastrand.c")], None, ["synchFastRandom", "synchFastRandom32", "synchFastRandomRange", "synchFastRandomRange32", "synchFastRandomSetSeed"])
prop("C26", "No combiner serves others without end",
 "In the combining constructions (CC-Synch, DSM-Synch, H-Synch, Oyama, Osci, flat combining) and the queues and stacks built on them a thread that becomes the combiner returns although the others keep submitting requests without pause: within one operation of its own it applies at most eleven requests per thread the object was created for, then hands the role over, and no request is lost, repeated or delayed for ever at the handover.",
 [S, PR, CFG], "every schedule in which requests keep arriving while one thread combines, every number of threads and length of operation, a combiner slowed or stalled at any instant",
 TESTS + "on a running test machine a combiner rarely reaches its bound, and a missing bound only shows as unfairness that no test measures.",
 C("ccsynch", "dsmsynch", "hsynch", "osci", "oyama", "fc"),
 [("help bound ends the combining loop and the head of the rest becomes the combiner", L+"concurrent/ccsynch.c, dsmsynch.c, hsynch.c, osci.c, oyama.c"), ("fixed number of passes over the publication list", L+"concurrent/fc.c")],
 None, ["number of applications of the sequential function by one thread within one of its operations"])
prop("C27", "A waiting request is not overtaken without bound",
 "The combining constructions are fair: once a request to CC-Synch, DSM-Synch, Osci (one fiber per group) or H-Synch (threads of one region) has been announced and waits, no request that is issued afterwards is applied before it; in flat combining each other thread gets at most two later requests in before it. So every waiting request is served within a bounded number of requests however the others compete, and the same thread cannot win again and again.",
 [S, PR], "every schedule in which some threads wait while others submit request after request, with stalls at any instant around announcing and handing over",
 TESTS + "an unfair order changes no result and no total, so no test can see it.",
 C("ccsynch", "dsmsynch", "hsynch", "osci", "fc"),
 [("announcement by one atomic swap on the tail, served in list order", L+"concurrent/ccsynch.c, dsmsynch.c, hsynch.c, osci.c"), ("every pass covers the whole publication list", L+"concurrent/fc.c")],
 None, ["order in which the sequential function is applied, against the moments when requests are issued and announced"])
prop("C28", "The objects stay correct on machines that reorder stores",
 "The library supports machines without total store order (ARMv8, RISC-V), where the stores of a thread to different locations may become visible to others in any order that its fences and atomic instructions allow. Built for such a machine, every lock, barrier, combining construction, queue, stack, hash table and universal object keeps its guarantees: no request, element, result or release is seen by another thread before what it stands for has been written, and nobody waits for ever because of it.",
 [S, CFG], "every order in which delayed stores can become visible between two fences, in every interleaving",
 TESTS + "on an x86 machine the fences for weaker machines are empty, so no test of any length can miss one.",
 C("ccsynch", "dsmsynch", "hsynch", "oyama", "osci", "fc", "clh", "mcs", "ccqueue", "dsmqueue", "hqueue", "osciqueue", "fcqueue", "msqueue", "lcrq", "simqueue", "ccstack", "dsmstack", "hstack", "oscistack", "fcstack", "lfstack", "simstack", "clhhash", "dsmhash", "sim", "lfuobject") + P("primitives", "barrier"),
 [("synchNonTSOFence and the fences implied by CAS, fetch-and-add and swap", L+"concurrent/*.c; "+L+"primitives/primitives.c; "+L+"includes/primitives.h")],
 None, ["operation results and completion in the build without the x86 code paths"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
