// Helpers shared by the scenarios.
#pragma once
#include "rt.h"
#include "adapt.h"
#include <algorithm>
#include <set>
#include <limits.h>

extern const char *obj_names[O_N];
static const i64 EMPTYV = LONG_MIN + 1;
static inline bool is_queue(int o) { return o >= O_CCQ && o <= O_SIMQ; }
static inline bool is_stack(int o) { return o >= O_CCS && o <= O_SIMS; }
static inline bool is_chain(int o) { return o <= O_LFU; }
static inline bool is_hash(int o) { return o == O_CLHH || o == O_DSMH; }
static inline bool is_lock(int o) { return o == O_CLH || o == O_MCS; }
static inline bool uses_osci(int o) { return o == O_OSCI || o == O_OSCIQ || o == O_OSCIS; }
static inline bool uses_h(int o) { return o == O_H || o == O_HQ || o == O_HS; }
static inline bool uses_sim(int o) { return o == O_SIM || o == O_SIMQ || o == O_SIMS; }
static inline bool has_backoff(int o) { return uses_sim(o) || o == O_LFU || o == O_MSQ || o == O_LFS; }

// the machine: processors, NUMA nodes, SMT, vendor, placement policy
void gen_machine(Spec &s, Rng &g, int n);
void apply_machine(Run &r, int n);
// parameters of one object for n threads: p1, p2 with the given prefix
void gen_object(Spec &s, Rng &g, int obj, int n, int fib, const char *pre = "");
// distinct values, special ones included now and then
struct Values { Rng &g; i64 k = 100; std::set<i64> used; int obj; Values(Rng &g, int obj) : g(g), obj(obj) {} i64 next(); };
void gen_coll_ops(Spec &s, Rng &g, int obj, int n, int maxops);
void gen_chain_ops(Spec &s, Rng &g, int n, int maxops);
void gen_hash_ops(Spec &s, Rng &g, int n, int maxops);

std::vector<LinOp> history(const Run &r, int lo, int hi);    // operations with kind in [lo,hi)
void check_coll(Run &r, int obj, const std::vector<LinOp> &h, bool drained);
void check_hash(Run &r, int obj, const std::vector<LinOp> &h);
struct ChainOp { int pid; i64 a, ret; u64 inv, res; bool done; };
extern std::vector<std::pair<long, long>> LATE;
std::pair<long, long> applied(const Seq *q, long i);
void check_chain_log(Run &r, const char *name, const Seq *q, std::vector<ChainOp> h);
void check_small(Run &r, const char *name, const std::vector<ChainOp> &h);
void check_chain_free(Run &r, const char *name, i64 init, std::vector<ChainOp> h);

// DEBUG builds: the totals of executed atomics against what the simulator saw
// what synchPrintStats reports: 0 executed cas 1 failed cas 2 swaps 3 faas
void stat_totals(long v[4]);
struct StatTrack {
    long before[4]; std::map<int, std::vector<u64>> in, out;
    void start() { in.clear(); out.clear(); if (ad_debug()) stat_totals(before); }
    void enter() { if (!ad_debug() || in.count(sim_tid())) return; auto &v = in[sim_tid()]; for (int k = 0; k < 5; k++) v.push_back(sim_atomics(sim_tid(), k)); }
    void leave() { if (!ad_debug()) return; auto &v = out[sim_tid()]; v.clear(); for (int k = 0; k < 5; k++) v.push_back(sim_atomics(sim_tid(), k)); }
    void verify(const char *what);      // after joining; fails the run
};
// harness barrier: takes no step of the code under test beyond yields
struct HBar { int n = 0, c = 0, ph = 0; };
void hbar_wait(HBar &b);

// requests applied by each thread (by its id) within its current operation
struct Served { long bound = 0, most = 0; int n = 0; long by[256]; };
extern Served SERVED;
