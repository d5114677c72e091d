"""Which simulations decide which property: (variant, scenario, configuration, weight)."""


JOBS = {
    # combining universal constructions
    "C01": [("def", "obj", "set=0", 6), ("nonuma", "obj", "set=0", 1), ("norec", "obj", "set=0", 1), ("gcc", "obj", "set=0", 1)],
    "C02": [("def", "obj", "set=1", 7), ("nonuma", "obj", "set=1", 1), ("gcc", "obj", "set=1", 1)],
    "C03": [("def", "obj", "set=2", 3), ("def", "crash", "cset=0", 3), ("nobo", "obj", "set=2", 1), ("nobo", "crash", "cset=0", 1), ("gcc", "obj", "set=2", 1), ("gcc", "crash", "cset=0", 1)],
    "C04": [("def", "obj", "set=3", 6), ("norec", "obj", "set=3", 2), ("gcc", "obj", "set=3", 1)],
    "C05": [("def", "obj", "set=4", 3), ("ring", "obj", "set=4", 3), ("def", "crash", "cset=1", 1), ("ring", "crash", "cset=1", 2), ("nobo", "obj", "set=4", 1), ("gcc", "obj", "set=4", 1), ("gccring", "obj", "set=4", 1)],
    "C06": [("def", "obj", "set=5", 6), ("norec", "obj", "set=5", 2), ("gcc", "obj", "set=5", 1)],
    "C07": [("def", "obj", "set=6", 4), ("def", "crash", "cset=2", 3), ("nobo", "obj", "set=6", 1), ("norec", "obj", "set=6", 1), ("gcc", "obj", "set=6", 1), ("gcc", "crash", "cset=2", 1)],
    "C08": [("def", "locks", "x=0", 4), ("gcc", "locks", "x=0", 1)],
    "C09": [("def", "obj", "set=7", 6), ("norec", "obj", "set=7", 1), ("gcc", "obj", "set=7", 1)],
    "C10": [("def", "crash", "cset=3,wf=1", 5), ("nobo", "crash", "cset=3,wf=1", 2), ("gcc", "crash", "cset=3,wf=1", 1)],
    "C11": [("def", "crash", "cset=4,lf=1", 4), ("ring", "crash", "cset=1,lf=1", 2), ("nobo", "crash", "cset=4,lf=1", 1), ("gcc", "crash", "cset=4,lf=1", 1)],
    "C12": [("def", "obj", "set=9", 6), ("def", "locks", "x=0", 2), ("gcc", "obj", "set=9", 1)],
    "C13": [("def", "barrier", "x=0", 3), ("gcc", "barrier", "x=0", 1)],
    "C14": [("def", "threads", "x=0", 4), ("nonuma", "threads", "x=0", 1), ("gcc", "threads", "x=0", 1)],
    "C15": [("def", "fibers", "x=0", 3), ("nonuma", "fibers", "x=0", 1), ("gcc", "fibers", "x=0", 1)],
    "C16": [("def", "pool", "strict_free=1", 3), ("nonuma", "pool", "strict_free=1", 2), ("norec", "pool", "strict_free=1", 1), ("gcc", "pool", "strict_free=1", 1)],
    "C17": [("def", "bounded", "x=0", 3), ("nonuma", "bounded", "x=0", 1), ("norec", "obj", "set=8", 1)],
    "C18": [("def", "prims", "x=0", 2), ("emu", "prims", "x=0", 2), ("gcc", "prims", "x=0", 1), ("gccemu", "prims", "x=0", 1)],
    "C19": [("def", "obj", "set=9,inject=1", 3), ("nonuma", "obj", "set=9,inject=1", 2), ("def", "pool", "failalloc=1", 1), ("def", "threads", "aff_fail=1", 1)],
    "C20": [("def", "obj", "set=9,strict_mem=1,strict_free=1", 4), ("nonuma", "obj", "set=9,strict_mem=1,strict_free=1", 2), ("dbg", "obj", "set=9,strict_mem=1,strict_free=1", 1),
            ("def", "multi", "strict_mem=1,strict_free=1", 2), ("def", "pool", "strict_mem=1,strict_free=1", 1), ("def", "threads", "strict_mem=1,strict_free=1", 1), ("def", "fibers", "strict_mem=1,strict_free=1", 1)],
    "C21": [("dbg", "obj", "set=9", 3), ("ring1", "obj", "set=4", 1), ("emudbg", "obj", "set=9", 1), ("dbg", "prims", "x=0", 1), ("emudbg", "prims", "x=0", 1), ("dbg", "threads", "x=0", 1)],
    "C22": [("def", "multi", "x=0", 3), ("nonuma", "multi", "x=0", 1), ("gcc", "multi", "x=0", 1)],
    "C23": [("def", "time", "x=0", 1)],
    "C24": [("def", "threads", "place=1", 2), ("nonuma", "threads", "place=1", 1)],
    "C25": [("def", "rand", "x=0", 3), ("gcc", "rand", "x=0", 1)],
    "C28": [("weak", "obj", "set=8,pso=1", 4), ("weak", "locks", "pso=1", 1), ("weak", "crash", "pso=1", 1), ("weak", "barrier", "pso=1", 1), ("weak", "multi", "pso=1", 1)],
    "C27": [("def", "obj", "set=0,order=1", 5), ("nonuma", "obj", "set=0,order=1", 1), ("gcc", "obj", "set=0,order=1", 2)],
    "C26": [("def", "obj", "set=0,load=1", 4), ("def", "obj", "set=1,load=1", 2), ("nonuma", "obj", "set=0,load=1", 1), ("gcc", "obj", "set=0,load=1", 1)],
}
# violation classes a check decides, where the scenario can show others (all if absent)
CLASSES = {"C12": "hang,memory,exit,join"}
RULES = {
    "common": "Each evaluation is one simulated execution of the real library code, a pure function of its seed: the seed draws the machine, the object, the workload, the scheduling strategy and the faults. Counted as distinct and non-trivial: executions with at least two threads and a switch inside an operation, by the hash of their interleaving.",
}
NOTES = {
    "C01": "every completed request must be one link of the chain of states logged by the sequential object, once, with its own argument, id and result, in real-time order",
    "C02": "as C01, with 1-4 fibers per thread and fibers that yield inside operations",
    "C03": "results must form one chain of object states in real-time order; threads stop for ever at random steps",
    "C04": "linearizability search against a sequential FIFO queue plus conservation after draining; recycling on and off",
    "C05": "as C04 with rings of 2 and 4 cells besides the shipped 2^12, and threads that stop for ever",
    "C06": "linearizability search against a sequential LIFO stack plus conservation after draining; recycling on and off",
    "C07": "as C06, with threads that stop for ever",
    "C08": "ownership, visibility and arrival order checked at every acquisition; 1-3 locks, nested, up to 12 threads and fibers",
    "C09": "linearizability per key against a set, negative and colliding keys, 1-16 cells",
    "C10": "bounds of 4000+700n own steps and 4000+300n+400*max_backoff loop turns per operation while any number of the other threads stop, stall or race; one run in six starves one thread over 20-50 operations",
    "C11": "bound on the steps of all threads between two completed operations; survivors complete everything",
    "C12": "after an unfair phase every run must end under a fair scheduler within a bound far above what any run needs",
    "C13": "round counters compared at every wait, last-leave and re-set barriers, up to 16 threads, last-leave included",
    "C14": "identity asked at random instants, several start/join rounds of different sizes and modes per run",
    "C15": "turn-taking, state, limits and memory of fibers, several generations of fibers per thread",
    "C16": "shadow accounting of every object handed out; refused allocations; bytes returned by destroy",
    "C17": "no page of new memory for a thread alone; conservation of nodes over concurrent phases, at 16-byte granularity; a long row of lookups and removals by threads that have inserted nothing takes no memory",
    "C18": "linearizability of short histories on 128-bit words for all primitives, native and emulated",
    "C19": "one memory request, thread or pinning call of the run is refused: failure status and message, or correct work",
    "C20": "every access of the code under test checked against live allocations, frees against their form, all topologies",
    "C21": "printed totals and object counters against the simulator's own count",
    "C22": "2-4 objects per run, same or different kinds, nested in locks, one created while the others are in use",
    "C23": "readings bracketed by the simulator's monotonic clock while the wall clock jumps and reads fail",
    "C24": "every thread's processor and node against the simulated machine: 1-64 processors, 1-8 nodes, SMT, 5 policies",
    "C25": "every number of a thread compared with what the same calls give when the thread is alone; ranges and stuck generators checked on every call; special seeds and bounds",
    "C28": "the library compiled as for a machine that is no x86; stores to different locations leave the store buffer in any order, swap (__sync_lock_test_and_set) is an acquire operation only, other atomics and fences drain it; loads are not reordered",
    "C27": "a request counts as announced after 1000 own steps of its caller in the operation (with stores visible after 200 steps at most); the order of application is read off the chain of results",
    "C26": "requests applied by one thread within one operation counted while 2-6 threads submit 20-150 requests each without pause; exactly-once and progress as in C01",
}
