// Deterministic simulator runtime: public interface for scenarios.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef int64_t i64;
typedef uint64_t u64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool one_in(u64 n) { return below(n) == 0; }
    template <class V> auto pick(const V &v) -> decltype(v[0]) { return v[below(v.size())]; }
};
static inline u64 mix2(u64 a, u64 b) { u64 z = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

struct OpSpec { int pid; int kind; i64 a, b; };
// Schedule/fault event: when thread tid is about to execute its lstep-th step
//   next >= 0 : thread next is scheduled instead      next == EV_CRASH : tid stops for ever
//   next == EV_STALL : tid is not scheduled for arg global steps
enum { EV_CRASH = -1, EV_STALL = -2 };
struct Event { int tid; u64 lstep; int next; u64 arg; };

struct Spec {
    std::string check, scenario, variant, cls, msg;
    u64 seed = 0, hash = 0;
    bool replay = false;
    std::map<std::string, i64> cfg;
    std::vector<OpSpec> ops;
    std::vector<Event> events;
    i64 get(const char *k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    void set(const char *k, i64 v) { cfg[k] = v; }
    void setdef(const char *k, i64 v) { if (!cfg.count(k)) cfg[k] = v; }
};

struct OpRec { int pid, kind; i64 a, b, ret; u64 inv, res; bool done; u64 lsteps; int tid; u64 wait; };  // lsteps: own steps taken; wait: event at which wait_mark own steps were reached

enum { F_STALL, F_CRASH, F_PREEMPT, F_ALLOCFAIL, F_THREADFAIL, F_AFFINFAIL, F_CLOCKFAIL, F_CLOCKJUMP, F_STOREDELAY, F_STOREREORDER, F_OVERSUB, F_TOPOLOGY, F_N };
extern const char *fault_names[F_N];

struct Run {
    const Spec *spec;
    Spec *out;                    // where recorded events go
    std::vector<OpRec> ops;
    std::string cls, msg;         // violation
    std::string outtext;          // what the code under test printed
    bool exited = false; int exit_code = 0;
    u64 hash = 0, ihash = 0, steps = 0, switches = 0, preempts = 0;
    u64 faults[F_N] = {0};
    u64 maxop = 0;                // longest operation in own steps
    u64 maxturns = 0;             // ... and in turns of loops, loops over private memory included
    bool finished = false;        // every thread ended
    std::map<std::string, u64> probes;
    struct Edge { i64 old, arg, pid; }; std::vector<Edge> edges;   // universal objects: requests tried on object states
    u64 alloc_calls = 0, alloc_bytes = 0, live_bytes = 0, free_calls = 0, oob = 0;
    int threads_created = 0;
    i64 get(const char *k, i64 d = 0) const { return spec->get(k, d); }
};

extern Run *R;                    // the run in progress

struct Scenario {
    const char *name;
    void (*gen)(Spec &, Rng &);   // fills cfg and ops
    void (*body)(Run &);          // executed by simulated thread 0
    void (*check)(Run &);         // executed after the run; reports with run_fail
};
Scenario *find_scenario(const std::string &name);
void register_scenario(Scenario s);
struct RegScenario { RegScenario(Scenario s) { register_scenario(s); } };

// --- for bodies / workers (inside simulated threads)
[[noreturn]] void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void run_fail(Run &r, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
int sim_tid();
int sim_spawn(void *(*fn)(void *), void *arg, bool crashable);   // raw simulated thread
void sim_wait_all();               // wait until every other simulated thread ended or crashed
void sim_yield();
void sim_point_here();             // a plain scheduling point
int op_begin(int pid, int kind, i64 a, i64 b);
void op_end(int h, i64 ret);
u64 sim_now();                     // global step count
u64 sim_event();                   // next global event number
u64 sim_own_steps();
u64 sim_rmw_count(int tid);       // successful read-modify-writes of a thread
u64 sim_atomics(int tid, int k);   // 0 compare-and-swaps executed, 1 failed, 2 swaps, 3 fetch-and-adds
void sim_set_crashable(bool c);    // may the calling thread stop for ever?
u64 sim_dirty_pages();             // pages of memory of the code under test ever written
void sim_track_fresh(); u64 sim_fresh_first();    // address of the first such granule written since the last call
u64 sim_fresh();   // 16-byte granules of memory of the code under test written so far
int sim_threads();
bool sim_thread_over(int tid);
bool sim_thread_crashed(int tid);
void *sim_calloc(size_t n);        // harness memory inside the arena (zeroed, checked)
void sim_set_mem_limit(u64 bytes); // fail if the code under test holds more
u64 sim_live_bytes(); u64 sim_live_blocks();
bool sim_is_live(const void *p, size_t n);
void sim_open_gate();              // unfair scheduling and faults start here
bool sim_chaos_over();             // ... and have ended
void sim_solo(u64 op_bound);       // bound on the own steps of every operation (0 = none)
void sim_set_turn_bound(u64 b);    // bound on the turns of loops in every operation
void sim_hold_me();               // directed stalls fall on the calling thread only: before a compare-and-swap until the old value is back
void sim_starve_me(u64 len);       // the calling thread sleeps before most of its read-modify-writes
void sim_set_wait_mark(u64 k);
void sim_set_prog_bound(u64 b);    // bound on the steps between two completed operations
i64 sim_mono_ns(); extern "C" int sim_node_of_cpu(int c);
int sim_thread_cpu(int t); u64 sim_bytes_requested();
void sim_probe(const char *name);
void sim_flush_own();
void sim_nofault_begin(); void sim_nofault_end();
int sim_run_len();
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
bool sim_in_stack(const void *p);

// linearizability
struct LinOp { int kind; i64 a, b, ret; u64 inv, res; bool done; };
enum { M_QUEUE, M_STACK, M_SET, M_PRIM, M_SMALL };
enum { P_SWAP = 1, P_FAA64, P_FAA32, P_CAS64, P_CAS32, P_CAS128, P_BTAS, P_READ, P_READ1 };
enum { L_INS = 1, L_REM = 2, L_FIND = 3, L_CAS = 4, L_OR = 5 };
// returns true if linearizable; expl receives a short text otherwise
bool linearizable(int model, const std::vector<LinOp> &h, i64 empty, std::string &expl, u64 *states, const std::vector<i64> *init = 0, u64 limit = 2000000);
