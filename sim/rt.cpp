// Deterministic simulator: runs the instrumented library (transform.py) as coroutines of one
// process. Every shared access, fence, pause and system call is a step; the next thread to run
// is a function of the seed (explore) or of the recorded events (replay).
#include "rt.h"
#include <sys/mman.h>
#include <link.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <algorithm>
#include <unordered_set>
#include <set>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
typedef uint32_t u32; typedef uint8_t u8;

const char *fault_names[F_N] = {"thread_stall", "thread_crash", "preemption", "alloc_failure", "thread_create_failure", "affinity_failure",
    "clock_failure", "wall_clock_jump", "delayed_store_visibility", "reordered_stores", "oversubscription", "odd_topology"};

static const u64 ARENA = 0x10000000000ULL, ARENA_SZ = 0x400000000ULL;      // 16 GB, no reserve
static const u64 STK = 0x20000000000ULL, STK_SZ = 256 << 10;
static const int MAXT = 512;
static const u64 TLSB = 0x30000000000ULL, TLS_SZ = 64 << 10;
extern "C" char __executable_start, __bss_start, _end;
extern "C" { extern char __start_simdata[] __attribute__((weak)); extern char __stop_simdata[] __attribute__((weak)); }

Run *R;

// ---------------------------------------------------------------- threads
struct SB { u64 addr; u64 val; u32 size; u64 due; u32 site; };
enum { T_RUN, T_OVER, T_CRASHED };
struct Th {
    u64 sp;
    int st;
    u64 lstep, ev_step;                  // ev_step: local step of the next recorded event
    size_t ev_i; std::vector<Event> evs;
    u64 stall_until;
    u32 ro;                              // consecutive points without a write
    u32 cpu; u32 cpu_set;
    u64 rmws;                            // successful read-modify-writes
    u64 op_start; int op; bool in_op;
    u64 tk, op_tk;                       // turns of loops, those at the start of the operation
    bool crashable, stack_shared, tls_shared;
    void *(*fn)(void *); void *arg;
    std::vector<SB> sb; size_t sb_head; u64 sb_cnt, sb_due;
    u64 tls_init[8];
    u64 ticks, mallocs;
    bool fiber_stack;
    i64 prio;
    u64 last_rmw_step;
    u64 at[5];                           // compare-and-swaps executed, failed; swaps; fetch-and-adds; double-word ones that changed nothing
    void *asm_p; u32 asm_n; u64 asm_v[2]; // double-word compare-and-swap under way (inline assembly)
};
static Th T[MAXT];
static int nth, cur;
static u64 driver_sp;
extern "C" void sim_switch(u64 *save, u64 load);
asm(".text\n.globl sim_switch\nsim_switch:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");

// ---------------------------------------------------------------- scheduler state
struct Sched {
    u64 step, slow_at;                    // slow path taken when step >= slow_at
    u64 run_start;                        // step at which cur was switched in
    u64 chaos_end, limit;
    bool explore, replay, gate, tso, nofault;
    Rng rng{1};
    int strat; u64 p, quantum; u64 next_dev;
    int stall_num; u64 stall_den, stall_len; u64 rmw_den, opb_den;
    u64 Q; u32 ro_limit;
    int crash_left; u64 crash_den;
    u64 next_stall, next_crash;
    std::vector<u64> pct_pts; size_t pct_i; i64 pct_low;
    u64 tso_max, tso_seed; u64 sb_min; bool pso;   // earliest due
    int sb_live;
    u64 op_bound, prog_bound, prog;      // prog: steps inside operations since one completed
    u64 evno;
    int solo;                             // thread running alone, or -1
    u64 next_ev_due;
    u64 stall_min;
    u64 tick_bound = 0, starve_len = 0; int starve_tid = -1;
    // directed stall: a thread is held before an access until the location has changed (or changed and come back)
    u64 acc_a = 0, acc_e = 0; u32 acc_n = 0; bool acc_cas = false;        // the access about to be made
    u64 hold_den = 0, hold_max = 0, next_hold = ~0ULL >> 2; int hold_mode = 0, hold_tid = -1;
    int hold_only = -1; u64 hold_a = 0, hold_v = 0, hold_start = 0; u32 hold_n = 0; bool hold_seen = false; int hold_left = 0; size_t hold_ev = 0;
    int victim;
    u64 wait_mark;
} S;
static int over_cnt;
static std::map<u64, std::string> syms;      // functions of the code compiled by gcc
static jmp_buf *run_exit;
static sigjmp_buf sig_exit;
static bool in_run;

static inline void hmix(u64 v) { R->hash = (R->hash ^ v) * 0x9e3779b97f4a7c15ULL; R->hash ^= R->hash >> 29; }
std::vector<std::string> site_names;

[[noreturn]] static void leave_run() { u64 d; sim_switch(&d, driver_sp); __builtin_unreachable(); }

std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void run_fail(Run &r, const char *cls, const char *f, ...) {
    if (!r.cls.empty()) return;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    r.cls = cls; r.msg = b;
}
[[noreturn]] void sim_fail(const char *cls, const char *f, ...) {
    if (R->cls.empty()) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); R->cls = cls; R->msg = b; }
    leave_run();
}
static const char *site_name(u32 s) {
    if (s & 0x80000000u) {                   // an address in code compiled by gcc
        static char b[256];
        u64 pc = (s & 0x7fffffffu) - 1; auto it = syms.upper_bound(pc);
        if (it == syms.begin()) return "?";
        --it; snprintf(b, sizeof b, "%s+0x%llx", it->second.c_str(), (unsigned long long)(pc + 1 - it->first));
        return b;
    }
    return s < site_names.size() && !site_names[s].empty() ? site_names[s].c_str() : "?"; }

// ---------------------------------------------------------------- memory
struct Blk { u64 a, end; u64 req; u8 freed; u8 kind; u8 stack; };    // kind 0: page mapping (numa), 1: malloc, 2: harness
static std::vector<Blk> blks;
static u64 brk_;
static u32 bcache[8192];
static u8 *dirty; static std::vector<u32> dirty_list;
static std::vector<std::pair<u64, u64>> wipe;
static inline void mark_dirty(u64 a, u64 n) {
    for (u64 p = (a - ARENA) >> 12, e = (a + n - 1 - ARENA) >> 12; p <= e; p++) if (!dirty[p]) { dirty[p] = 1; dirty_list.push_back((u32)p); }
}
static bool fresh_on; static u64 fresh_first; static std::unordered_set<u64> fresh;      // 16-byte granules of heap ever written
static int find_blk(u64 a) {
    size_t lo = 0, hi = blks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blks[m].a <= a) lo = m + 1; else hi = m; }
    return (int)lo - 1;
}
static inline int lookup(u64 a) {
    u32 &c = bcache[(a >> 6) & 8191];
    if (likely(c < blks.size() && a >= blks[c].a && a < blks[c].end)) return (int)c;
    int i = find_blk(a);
    if (i >= 0 && a < blks[i].end) c = (u32)i;
    return i;
}
static bool strict_mem; static u64 mem_limit;
static u64 arena_alloc(u64 n, u64 align, int kind, bool fill) {
    u64 a = (brk_ + 64 + align - 1) & ~(align - 1);
    if (a + n + 4096 > ARENA + ARENA_SZ) sim_fail("memory", "simulated memory exhausted: %llu bytes requested", (unsigned long long)n);
    u64 real = n;
    if (kind == 0) real = (n + 4095) & ~4095ULL;
    brk_ = a + real;
    Blk b; b.a = a; b.end = a + (kind == 0 && !strict_mem ? real : n); b.req = n; b.freed = 0; b.kind = (u8)kind; b.stack = 0;
    if (b.end == b.a) b.end = b.a;
    blks.push_back(b);
    if (fill) {
        u64 k = std::min<u64>(n, 65536);
        if (k) { memset((void *)a, 0xA7, k); mark_dirty(a, k); }
        if (n > k) { u64 t = std::min<u64>(n - k, 8192); memset((void *)(a + n - t), 0xA7, t); mark_dirty(a + n - t, t); }
    } else if (real <= 65536 && real) { memset((void *)a, 0, real); mark_dirty(a, real); }
    return a;
}
static void mem_bad(const char *what, u64 a, u32 site, u64 size) {
    sim_fail("memory", "%s of %llu bytes at arena+0x%llx by thread %d in %s", what, (unsigned long long)size, (unsigned long long)(a - ARENA), cur, site_name(site));
}
static void chk_slow(u64 a, u64 size, u32 site) {
    int i = lookup(a);
    if (i >= 0 && a < blks[i].end) {
        if (blks[i].freed) mem_bad("use after free", a, site, size);
        if (a + size <= blks[i].end) return;
    }
    R->oob++;
    if (strict_mem) {
        if (i < 0) mem_bad("access outside any allocation", a, site, size);
        sim_fail("memory", "access of %llu bytes at offset %lld of a %llu-byte allocation by thread %d in %s", (unsigned long long)size,
                 (long long)(a - blks[i].a), (unsigned long long)blks[i].req, cur, site_name(site));
    }
    if (a + size > brk_ + (1 << 20)) mem_bad("wild access", a, site, size);
}
static inline void chk(u64 a, u64 size, u32 site) {
    u32 c = bcache[(a >> 6) & 8191];
    if (likely(c < blks.size() && a >= blks[c].a && a + size <= blks[c].end && !blks[c].freed)) return;
    chk_slow(a, size, site);
}

// thread-local storage in the executable (code compiled by gcc): one block, swapped with the threads
static char *tls_live; static u64 tls_n; static std::vector<char> tls_init0, tls_save[MAXT];
enum { A_PRIV, A_SHARED };
static u64 img_lo, img_hi, sd_lo, sd_hi;
static __attribute__((noinline)) int classify_slow(u64 a, u64 size, u32 site, bool wr);
static void flush_sb(Th &t);
static inline __attribute__((always_inline)) int classify(u64 a, u64 size, u32 site, bool wr) {
    if (likely(a - STK < MAXT * STK_SZ)) {
        int o = (int)((a - STK) / STK_SZ);
        if (o == cur) return T[cur].stack_shared ? A_SHARED : A_PRIV;
        if (!T[o].stack_shared) { flush_sb(T[o]); T[o].stack_shared = true; }
        return A_SHARED;
    }
    if (a - ARENA < ARENA_SZ) {
        chk(a, size, site);
        u64 sp = (u64)__builtin_frame_address(0);
        if (unlikely(sp - ARENA < ARENA_SZ)) {
            int i = find_blk(sp);
            if (i >= 0) { blks[i].stack = 1; if (a >= blks[i].a && a < blks[i].end) return A_PRIV; }
        }
        if (unlikely(fresh_on) && wr && fresh.insert((a - ARENA) >> 4).second && !fresh_first) fresh_first = a;
        if (wr) { u64 p = (a - ARENA) >> 12; if (unlikely(!dirty[p])) mark_dirty(a, size); else if (unlikely(((a + size - 1 - ARENA) >> 12) != p)) mark_dirty(a, size); }
        return A_SHARED;
    }
    if (a >= sd_lo && a + size <= sd_hi) return A_SHARED;
    return classify_slow(a, size, site, wr);
}
static int classify_slow(u64 a, u64 size, u32 site, bool wr) {
    if (a - TLSB < MAXT * TLS_SZ) {
        int o = (int)((a - TLSB) / TLS_SZ);
        if (o == cur) return T[cur].tls_shared ? A_SHARED : A_PRIV;
        if (!T[o].tls_shared) { flush_sb(T[o]); T[o].tls_shared = true; }
        return A_SHARED;
    }
    if (a >= img_lo && a + size <= img_hi) return A_PRIV;
    if (a - (u64)tls_live < tls_n) return A_PRIV;
    sim_fail("memory", "wild %s of %llu bytes at 0x%llx by thread %d in %s", wr ? "write" : "read", (unsigned long long)size, (unsigned long long)a, cur, site_name(site));
}

// ---------------------------------------------------------------- store buffers (x86-TSO)
static inline void raw_store(u64 a, u64 v, u32 n) { memcpy((void *)a, &v, n); }
static void drain_one(Th &t) {
    SB &b = t.sb[t.sb_head++];
    if (b.size == 0) { if (t.sb_head == t.sb.size()) { t.sb.clear(); t.sb_head = 0; S.sb_live--; } return; }
    if (b.addr - ARENA < ARENA_SZ) mark_dirty(b.addr, b.size);
    raw_store(b.addr, b.val, b.size);
    hmix(b.addr ^ b.val);
    if (t.sb_head == t.sb.size()) { t.sb.clear(); t.sb_head = 0; S.sb_live--; }
}
static void flush_sb(Th &t) { while (t.sb_head < t.sb.size()) drain_one(t); }
static void drain_due() {
    S.sb_min = ~0ULL;
    for (int i = 0; i < nth; i++) {
        Th &t = T[i];
        if (S.pso) {                       // stores to different locations may overtake each other
            for (size_t j = t.sb_head; j < t.sb.size(); j++) {
                SB &b = t.sb[j];
                if (!b.size || b.due > S.step) continue;
                bool ok = true;
                for (size_t k = t.sb_head; k < j && ok; k++) ok = !t.sb[k].size || t.sb[k].addr + t.sb[k].size <= b.addr || b.addr + b.size <= t.sb[k].addr;
                if (!ok) continue;
                if (b.addr - ARENA < ARENA_SZ) mark_dirty(b.addr, b.size);
                raw_store(b.addr, b.val, b.size); hmix(b.addr ^ b.val);
                b.size = 0;
                for (size_t k = t.sb_head; k < j; k++) if (t.sb[k].size) { R->faults[F_STOREREORDER]++; break; }
            }
            while (t.sb_head < t.sb.size() && !t.sb[t.sb_head].size) drain_one(t);
            for (size_t j = t.sb_head; j < t.sb.size(); j++) if (t.sb[j].size) S.sb_min = std::min(S.sb_min, std::max(t.sb[j].due, S.step + 1));
            continue;
        }
        while (t.sb_head < t.sb.size() && t.sb[t.sb_head].due <= S.step) drain_one(t);
        if (t.sb_head < t.sb.size()) S.sb_min = std::min(S.sb_min, t.sb[t.sb_head].due);
    }
}

// ---------------------------------------------------------------- scheduling
enum { K_READ, K_WRITE, K_RMW, K_FENCE, K_PAUSE, K_YIELD, K_SYS, K_OPB, K_TICK };
static void set_slow() {
    S.slow_at = S.step + 1000000;
    S.slow_at = std::min(S.slow_at, S.limit + 1);
    if (S.step < S.chaos_end) S.slow_at = std::min(S.slow_at, S.chaos_end);
    else if (S.stall_min) S.slow_at = S.step + 1;             // stalls still to be cleared
    S.slow_at = std::min(S.slow_at, S.run_start + S.Q + 1);
    if (S.gate) {
        if (S.explore) S.slow_at = std::min(std::min(S.slow_at, S.next_hold), std::min(S.next_dev, std::min(S.next_stall, S.next_crash)));
    }
    if (S.sb_live) S.slow_at = std::min(S.slow_at, S.sb_min);
    if (S.slow_at <= S.step) S.slow_at = S.step + 1;
}
static inline bool runnable(int i) { return T[i].st == T_RUN && (T[i].stall_until <= S.step); }
static int rr_pure(int from) {
    for (int k = 1; k <= nth; k++) { int i = (from + k) % nth; if (runnable(i)) return i; }
    return -1;
}
static int rr_next(int from) {
    int r = rr_pure(from);
    if (r >= 0) return r;
    // everyone is stalled: end the stall of the next one (not the shortest one: directed stalls have no length yet)
    int best = -1;
    for (int k = 1; k <= nth && best < 0; k++) { int i = (from + k) % nth; if (T[i].st == T_RUN) best = i; }
    if (best >= 0) T[best].stall_until = 0;
    return best;
}
static void switch_to(int n) {
    int o = cur;
    if (n == o) return;
    if (tls_n) { memcpy(tls_save[o].data(), tls_live, tls_n); memcpy(tls_live, tls_save[n].data(), tls_n); }
    R->switches++;
    R->ihash = (R->ihash ^ ((u64)n << 40 ^ (u64)o << 32 ^ T[o].lstep)) * 0x9e3779b97f4a7c15ULL; R->ihash ^= R->ihash >> 31;
    cur = n; S.run_start = S.step; T[n].ro = 0;
    sim_switch(&T[o].sp, T[n].sp);
}
static void record(int tid, u64 lstep, int next, u64 arg) { if (S.explore && R->out) R->out->events.push_back({tid, lstep, next, arg}); }
static u64 geo(u64 mean) { if (mean >= (1ULL << 60)) return ~0ULL >> 2; u64 r = S.rng.below(2 * mean) + 1; return r; }
static int rand_other() {
    int c[MAXT], n = 0;
    for (int i = 0; i < nth; i++) if (i != cur && runnable(i)) c[n++] = i;
    return n ? c[S.rng.below(n)] : -1;
}
static void arm() {
    switch (S.strat) {
        case 0: S.next_dev = S.step + geo(S.p); break;
        case 4: S.next_dev = S.step + (cur == S.victim ? geo(S.quantum) : geo(S.p * 8)); break;
        case 3: S.next_dev = S.run_start + S.quantum; if (S.next_dev <= S.step) S.next_dev = S.step + S.quantum; break;
        case 2: S.next_dev = S.pct_i < S.pct_pts.size() ? S.pct_pts[S.pct_i] : ~0ULL >> 2; break;
        default: S.next_dev = ~0ULL >> 2;
    }
}
static void do_crash(int tid) {
    T[tid].st = T_CRASHED; R->faults[F_CRASH]++;
    over_cnt++;
}
static int pct_best(bool excl) {
    int b = -1;
    for (int i = 0; i < nth; i++) if (runnable(i) && !(excl && i == cur) && (b < 0 || T[i].prio > T[b].prio)) b = i;
    return b;
}
static u64 slack_len() {
    static const u64 L[] = {30, 100, 200, 600, 2000, 6000, 20000, 100000};
    u64 n = S.stall_len >= 8 ? 8 : S.stall_len;
    return L[S.rng.below(n)] + S.rng.below(50);
}
static inline u64 peek(u64 a, u32 n) { u64 v = 0; memcpy(&v, (void *)a, n); return v; }
static void hold_begin(int kind) {
    Th &t = T[cur];
    S.next_hold = S.step + 1;
    if (S.hold_only >= 0 && cur != S.hold_only) return;
    if (S.hold_tid >= 0 || !t.in_op || t.st != T_RUN || t.stall_until > S.step || kind > K_RMW || (S.hold_mode < 2 && kind != K_RMW) || !S.acc_n || S.acc_a - ARENA >= ARENA_SZ) return;
    S.hold_tid = cur; S.hold_a = S.acc_a; S.hold_n = std::min(S.acc_n, 8u); S.hold_start = S.step;
    u64 v = peek(S.hold_a, S.hold_n);
    S.hold_v = S.hold_mode == 0 && S.acc_cas ? S.acc_e : v; S.hold_seen = v != S.hold_v;
    S.hold_left = S.hold_mode == 0 ? 0 : 1 + (S.rng.one_in(3) ? (int)S.rng.below(4) : 0);
    t.stall_until = S.step + S.hold_max; S.stall_min = 1; R->faults[F_STALL]++; R->probes["directed_holds"]++;
    if (R->out) S.hold_ev = R->out->events.size();
    record(cur, t.lstep, EV_STALL, S.hold_max);
    S.next_hold = S.step + geo(S.hold_den); S.hold_mode = S.hold_only >= 0 ? 0 : (int)S.rng.below(3);
}
static __attribute__((noinline)) bool hold_ready() {
    Th &h = T[S.hold_tid];
    if (h.st != T_RUN || h.stall_until <= S.step || S.hold_tid == cur) { S.hold_tid = -1; return false; }
    u64 v = peek(S.hold_a, S.hold_n);
    if (S.hold_left < 0) return true;
    bool aba = S.hold_left == 0;
    if (aba) { if (v != S.hold_v) S.hold_seen = true; else if (S.hold_seen) { S.hold_left = -1; R->probes["held_until_value_came_back"]++; return true; } }
    else if (v != S.hold_v) { S.hold_v = v; if (!--S.hold_left) { S.hold_left = -1; return true; } }
    return false;
}
static void __attribute__((noinline)) point_slow(u32 site, int kind, bool yieldish) {
    Th &t = T[cur];
    if (S.step > S.limit) {
        std::string who;
        for (int i = 0; i < nth && who.size() < 300; i++) if (T[i].st == T_RUN) who += fmt(" t%d%s", i, T[i].in_op ? fmt("(op %d)", T[i].op).c_str() : "");
        sim_fail("hang", "no termination within %llu steps (%llu of them under a fair scheduler); unfinished:%s; thread %d at %s",
                 (unsigned long long)S.limit, (unsigned long long)(S.limit - S.chaos_end), who.c_str(), cur, site_name(site));
    }
    if (S.sb_live && S.step >= S.sb_min) drain_due();
    bool chaos = S.gate && S.step < S.chaos_end;
    if (!chaos && S.stall_min) { for (int i = 0; i < nth; i++) T[i].stall_until = 0; S.stall_min = 0; }
    // 1. faults: crash or stall of the running thread (decided by the explorer or read from the events)
    int forced = -1;
    if (S.replay && t.lstep >= t.ev_step) {
        while (t.ev_i < t.evs.size() && t.evs[t.ev_i].lstep <= t.lstep) {
            Event &e = t.evs[t.ev_i++];
            if (e.lstep < t.lstep) continue;
            if (e.next == EV_CRASH) { if (t.crashable && t.st == T_RUN) do_crash(cur); }
            else if (e.next == EV_STALL) { t.stall_until = S.step + e.arg; S.stall_min = 1; R->faults[F_STALL]++; }
            else forced = e.next;
        }
        t.ev_step = t.ev_i < t.evs.size() ? t.evs[t.ev_i].lstep : ~0ULL;
    }
    bool rmw_dev = false;
    if (S.explore && chaos) {
        bool stall = false;
        if (S.step >= S.next_crash) {
            if (S.crash_left > 0 && t.crashable && !S.nofault) { S.crash_left--; record(cur, t.lstep, EV_CRASH, 0); do_crash(cur); S.next_crash = S.crash_left > 0 ? S.step + geo(S.crash_den) : ~0ULL >> 2; }
            else S.next_crash = S.step + 1 + geo(4);
        } else if (S.step >= S.next_stall) { stall = true; S.next_stall = S.step + geo(S.stall_den); }
        if (S.rmw_den && (kind == K_RMW || t.last_rmw_step + 1 == t.lstep) && t.st == T_RUN && S.rng.one_in(S.rmw_den)) {
            if (S.crash_left > 0 && t.crashable && !S.nofault && S.rng.one_in(8)) { S.crash_left--; record(cur, t.lstep, EV_CRASH, 0); do_crash(cur); }
            else if (S.stall_num && S.rng.one_in(3)) stall = true; else rmw_dev = true;
        }
        bool starve = cur == S.starve_tid && kind == K_RMW && t.in_op && S.rng.below(8);   // always too late
        if ((stall || starve) && t.st == T_RUN) {
            u64 l = starve ? S.starve_len + S.rng.below(S.starve_len) : slack_len(); t.stall_until = S.step + l; S.stall_min = 1; R->faults[F_STALL]++;
            record(cur, t.lstep, EV_STALL, l);
        }
    }
    int freed = -1;
    if (S.explore && chaos && S.hold_den) {
        if (S.hold_tid >= 0 && hold_ready()) {
            T[S.hold_tid].stall_until = S.step;
            if (R->out) R->out->events[S.hold_ev].arg = S.step - S.hold_start;
            if (S.rng.below(8)) freed = S.hold_tid;
            S.hold_tid = -1;
        }
        if (S.step >= S.next_hold) hold_begin(kind);
    }
    // 2. the default rule
    int def = cur;
    if (t.st != T_RUN || t.stall_until > S.step) def = rr_next(cur);
    else if (yieldish || S.step - S.run_start > S.Q) def = rr_next(cur);
    if (def < 0) leave_run();                  // nobody left (all crashed)
    // 3. deviation from it
    int next = def;
    if (S.replay) { if (forced >= 0 && forced < nth && runnable(forced)) { next = forced; R->faults[F_PREEMPT]++; } }
    else if (chaos) {
        int want = def;
        switch (S.strat) {
            case 0: if (S.step >= S.next_dev || yieldish) { int o = rand_other(); if (o >= 0) want = o; arm(); } break;
            case 2: {
                while (S.pct_i < S.pct_pts.size() && S.step >= S.pct_pts[S.pct_i]) { S.pct_i++; t.prio = --S.pct_low; }
                if (yieldish) t.prio = --S.pct_low;
                int b = pct_best(false); if (b >= 0) want = b; arm(); break; }
            case 4: if (S.step >= S.next_dev || yieldish) {       // one victim gets short slices, the others long ones
                int o = cur != S.victim && S.victim < nth && runnable(S.victim) && S.rng.below(4) ? S.victim : rand_other();
                if (o >= 0) { want = o; int c = cur; cur = o; arm(); cur = c; } else arm();
                } break;
            case 3: if (S.step >= S.next_dev) { int o = rr_pure(cur); if (o >= 0) want = o; } arm(); break;
            default: break;
        }
        if (kind == K_OPB && S.opb_den && S.rng.one_in(S.opb_den)) { int o = rand_other(); if (o >= 0) want = o; }
        if (rmw_dev) { int o = rand_other(); if (o >= 0) want = o; }
        if (freed >= 0) want = freed;
        if (want != def && want >= 0 && runnable(want)) { record(cur, t.lstep, want, 0); R->faults[F_PREEMPT]++; next = want; }
    }
    if (next == cur && (yieldish || S.step - S.run_start > S.Q)) S.run_start = S.step;
    switch_to(next);
    set_slow();
}
// A step of the running thread. The access itself happens after return.
static void asm_settle(Th &t) {            // did it change its location? nobody else has run since
    u64 v[2] = {0, 0}; memcpy(v, t.asm_p, t.asm_n);
    t.at[4] += v[0] == t.asm_v[0] && v[1] == t.asm_v[1];
    t.asm_p = 0;
}
#define ACC(p, n) (S.acc_a = (u64)(p), S.acc_n = (u32)(n), S.acc_cas = false)
static inline __attribute__((always_inline)) void point(u32 site, int kind) {
    Th &t = T[cur];
    if (unlikely(!in_run)) { fprintf(stderr, "simrun: instrumented code runs outside a simulation\n"); exit(3); }
    if (unlikely(t.asm_p != 0)) asm_settle(t);
    t.lstep++; S.step++;
    if (kind == K_READ || kind == K_FENCE) t.ro++; else if (kind == K_WRITE) t.ro = 0;
    bool y = kind >= K_PAUSE && kind <= K_YIELD;
    if (unlikely(kind == K_TICK)) y = true;
    if (unlikely(t.ro > S.ro_limit)) { y = true; t.ro = 0; }
    if (unlikely(y || S.step >= S.slow_at || t.lstep >= t.ev_step || (S.hold_tid >= 0 && hold_ready()) || (S.explore && (kind == K_OPB || (kind == K_RMW && S.starve_tid == cur) || (S.rmw_den && (kind == K_RMW || t.last_rmw_step + 1 == t.lstep)))))) point_slow(site, kind, y);
    Th &c = T[cur];
    if (unlikely(c.in_op)) {
        if (unlikely(S.wait_mark && c.lstep - c.op_start == S.wait_mark)) R->ops[c.op].wait = ++S.evno;
        if (unlikely(S.op_bound && c.lstep - c.op_start > S.op_bound)) sim_fail("not-wait-free", "operation %d of thread %d still runs after %llu own steps, at %s", c.op, cur, (unsigned long long)(c.lstep - c.op_start), site_name(site));
        if (unlikely(S.prog_bound && ++S.prog > S.prog_bound)) sim_fail("no-progress", "no operation completed within %llu steps of the running threads; thread %d at %s", (unsigned long long)S.prog_bound, cur, site_name(site));
    }
}
static FILE *steplog;                    // SIM_STEPLOG=FILE: one line per step, for debugging the simulator
#define ctr(site, v) if (unlikely(steplog != 0)) fprintf(steplog, "%llu t%d %llu %s %llx\n", (unsigned long long)S.step, cur, (unsigned long long)T[cur].lstep, site_name(site), (unsigned long long)(v)); hmix(((u64)(site) << 40) ^ ((u64)cur << 32) ^ (u64)(v))

// ---------------------------------------------------------------- instrumented accesses
template <class V> static inline __attribute__((always_inline)) V do_load(V *p, u32 site) {
    u64 a = (u64)p;
    if (classify(a, sizeof(V), site, false) == A_PRIV) return *(volatile V *)p;
    ACC(p, sizeof(V)); point(site, K_READ);
    V v;
    Th &t = T[cur];
    if (unlikely(t.sb_head < t.sb.size())) {
        for (size_t i = t.sb.size(); i-- > t.sb_head;) {
            SB &b = t.sb[i];
            if (!b.size || b.addr + b.size <= a || a + sizeof(V) <= b.addr) continue;
            if (b.addr <= a && b.addr + b.size >= a + sizeof(V)) { u64 x = b.val >> (8 * (a - b.addr)); memcpy(&v, &x, sizeof v); ctr(site, x); return v; }
            flush_sb(t); break;
        }
    }
    v = *(volatile V *)p;
    u64 x = 0; memcpy(&x, &v, sizeof v);
    ctr(site, x);
    return v;
}
template <class V> static inline __attribute__((always_inline)) void do_store(V *p, V v, u32 site) {
    u64 a = (u64)p;
    if (classify(a, sizeof(V), site, true) == A_PRIV) { *(volatile V *)p = v; return; }
    ACC(p, sizeof(V)); point(site, K_WRITE);
    u64 x = 0; memcpy(&x, &v, sizeof v);
    ctr(site, x);
    if (unlikely(S.tso && S.step < S.chaos_end && S.gate)) {
        Th &t = T[cur];
        u64 h = mix2(S.tso_seed, mix2((u64)cur, ++t.sb_cnt));
        u64 due = S.step + ((h & 3) ? h % 8 : (h >> 8) % S.tso_max);
        if (t.sb_head < t.sb.size()) { if (!S.pso) due = std::max(due, t.sb.back().due); } else S.sb_live++;
        if (t.sb.size() - t.sb_head >= 40) drain_one(t);
        t.sb.push_back({a, x, (u32)sizeof(V), due, site});
        S.sb_min = std::min(S.sb_min, S.pso ? due : t.sb[t.sb_head].due);
        R->faults[F_STOREDELAY]++;
        S.slow_at = std::min(S.slow_at, std::max(S.sb_min, S.step + 1));
        return;
    }
    if (unlikely(T[cur].sb_head < T[cur].sb.size())) flush_sb(T[cur]);
    *(volatile V *)p = v;
}
template <class V> static inline __attribute__((always_inline)) V do_cas(V *p, V c, V n, u32 site) {
    u64 a = (u64)p;
    if (classify(a, sizeof(V), site, true) == A_SHARED) { ACC(p, sizeof(V)); S.acc_cas = true; S.acc_e = (u64)c; point(site, K_RMW); }
    if (unlikely(T[cur].sb_head < T[cur].sb.size())) flush_sb(T[cur]);
    V old = *(volatile V *)p;
    Th &t = T[cur];
    t.at[0]++; t.at[1] += old != c;
    if (old == c) { *(volatile V *)p = n; t.ro = 0; t.rmws++; } else t.ro++;
    t.last_rmw_step = t.lstep;
    ctr(site, (u64)old * 3 + (u64)(old == c));
    return old;
}
template <class V> static inline V do_rmw(int op, V *p, V v, u32 site) {
    u64 a = (u64)p;
    if (classify(a, sizeof(V), site, true) == A_SHARED) { ACC(p, sizeof(V)); point(site, K_RMW); }
    if (unlikely(T[cur].sb_head < T[cur].sb.size())) {
        bool all = !(S.pso && op == 0);    // __sync_lock_test_and_set is an acquire operation only: earlier stores may come later
        if (!all) for (size_t i = T[cur].sb_head; i < T[cur].sb.size(); i++) { SB &b = T[cur].sb[i]; if (b.size && b.addr < a + sizeof(V) && a < b.addr + b.size) all = true; }
        if (all) flush_sb(T[cur]);
    }
    V old = *(volatile V *)p, n = old;
    typedef typename std::make_signed<V>::type SV;
    switch (op) {
        case 0: n = v; break; case 1: n = old + v; break; case 2: n = old - v; break; case 3: n = old & v; break;
        case 4: n = old | v; break; case 5: n = old ^ v; break; case 6: n = ~(old & v); break;
        case 7: n = (SV)old > (SV)v ? old : v; break; case 8: n = (SV)old < (SV)v ? old : v; break;
        case 9: n = old > v ? old : v; break; case 10: n = old < v ? old : v; break;
    }
    *(volatile V *)p = n;
    Th &t = T[cur]; t.ro = 0; t.rmws++; t.last_rmw_step = t.lstep; if (op == 0) t.at[2]++; else if (op == 1 || op == 2) t.at[3]++;
    ctr(site, (u64)old * 5 + (u64)n);
    return old;
}
extern "C" {
#define LS(N, V) V sim_load_##N(V *p, u32 s) { return do_load<V>(p, s); } void sim_store_##N(V *p, V v, u32 s) { do_store<V>(p, v, s); }
LS(i8, u8) LS(i16, uint16_t) LS(i32, u32) LS(i64, u64) LS(double, double) LS(float, float)
void *sim_load_ptr(void *p, u32 s) { return (void *)do_load<u64>((u64 *)p, s); }
void sim_store_ptr(void *p, void *v, u32 s) { do_store<u64>((u64 *)p, (u64)v, s); }
#define CR(N, V) V sim_cas_##N(V *p, V c, V n, u32 s) { return do_cas<V>(p, c, n, s); } V sim_rmw_##N(u32 o, V *p, V v, u32 s) { return do_rmw<V>((int)o, p, v, s); }
CR(i8, u8) CR(i16, uint16_t) CR(i32, u32) CR(i64, u64)
void *sim_cas_ptr(void *p, void *c, void *n, u32 s) { return (void *)do_cas<u64>((u64 *)p, (u64)c, (u64)n, s); }
void *sim_rmw_ptr(u32 o, void *p, void *v, u32 s) { return (void *)do_rmw<u64>((int)o, (u64 *)p, (u64)v, s); }
void sim_touch(void *p, u32 kind, u32 s) {
    if (classify((u64)p, 8, s, kind != 0) == A_SHARED) point(s, kind == 2 ? K_RMW : kind ? K_WRITE : K_READ);
    flush_sb(T[cur]);
}
void sim_flush() { if (T[cur].sb_head < T[cur].sb.size()) flush_sb(T[cur]); }
void sim_fence(u32 s) { point(s, K_FENCE); sim_flush(); ctr(s, 1); }
void sim_lightfence(u32) {}
void sim_pause(u32 s) { point(s, K_PAUSE); }
void sim_syscall(u32 s) { point(s, K_SYS); sim_flush(); }
void sim_asm(void *p, u32 size, u32 s) {
    if (classify((u64)p, size, s, true) == A_SHARED) { ACC(p, size); point(s, K_RMW); }
    sim_flush(); Th &t = T[cur]; t.rmws++; t.ro = 0; t.last_rmw_step = t.lstep;
    u64 v[2] = {0, 0}; memcpy(v, p, size); ctr(s, v[0] ^ (v[1] * 7));
    if (size == 16) { t.at[0]++; t.asm_p = p; t.asm_n = 16; t.asm_v[0] = v[0]; t.asm_v[1] = v[1]; }
}
int sim___atomic_compare_exchange_16(u64 *p, u64 *old, unsigned __int128 n, int, int, int) {    // libatomic's function, on machines without cmpxchg16b
    u32 st = 0;
    if (classify((u64)p, 16, st, true) == A_SHARED) { ACC(p, 16); point(st, K_RMW); }
    sim_flush(); Th &t = T[cur]; t.ro = 0; t.rmws++; t.last_rmw_step = t.lstep; t.at[0]++;
    bool ok = p[0] == old[0] && p[1] == old[1];
    if (ok) { p[0] = (u64)n; p[1] = (u64)(n >> 64); } else { old[0] = p[0]; old[1] = p[1]; t.at[4]++; }
    hmix(p[0] * 3 ^ p[1]);
    return ok;
}
void sim_asm_torn(void *p, u32 size, u32 s) {
    if (classify((u64)p, size, s, true) == A_SHARED) {
        u64 v[2] = {0, 0};
        sim_flush(); ACC(p, size); point(s, K_READ); memcpy(v, p, size);
        ACC(p, size); point(s, K_WRITE); memcpy(p, v, size);      // what others wrote in between is overwritten
    }
    T[cur].ro = 0; if (size == 16) T[cur].at[0]++;
}
void sim_tick() {
    Th &t = T[cur];
    t.tk++;
    if (unlikely(S.tick_bound && t.in_op && t.tk - t.op_tk > S.tick_bound))
        sim_fail("not-wait-free", "operation %d of thread %d still runs after %llu turns of loops and %llu own steps", t.op, cur, (unsigned long long)(t.tk - t.op_tk), (unsigned long long)(t.lstep - t.op_start));
    if (unlikely(++t.ticks >= 5000)) { t.ticks = 0; if (in_run) { S.step += 20; point(0, K_TICK); } }
}
void sim_cpuid(void *b, void *d, void *c) {
    static const char *v[] = {"AuthenticAMD", "GenuineIntel", "SimulatedCPU"};
    const char *s = v[R->get("vendor", 0) % 3];
    memcpy(b, s, 4); memcpy(d, s + 4, 4); memcpy(c, s + 8, 4);
}
void sim_memset_(void *p, u8 v, u64 n, u32 s) {
    if (!n) return;
    u64 a = (u64)p;
    if (classify(a, n, s, true) == A_PRIV) { memset(p, v, n); return; }
    // one step per 64 bytes up to a few, so that others can see it half done
    u64 done = 0; int k = 0;
    sim_flush();
    while (done < n) { point(s, K_WRITE); u64 l = k++ < 6 ? std::min<u64>(64, n - done) : n - done; memset((char *)p + done, v, l); done += l; }
    if (a - ARENA < ARENA_SZ) mark_dirty(a, n);
    ctr(s, n ^ ((u64)v << 32));
}
void sim_memcpy_(void *d, const void *src, u64 n, u32 s) {
    if (!n) return;
    int x = classify((u64)d, n, s, true), y = classify((u64)src, n, s, false);
    if (x == A_PRIV && y == A_PRIV) { memmove(d, src, n); return; }
    if (d == src) return;
    sim_flush();
    // word-wise: a copy is not atomic
    u64 done = 0;
    bool back = (u64)d > (u64)src && (u64)d < (u64)src + n;
    if (back) { point(s, K_WRITE); memmove(d, src, n); }
    else while (done < n) {
        u64 l = std::min<u64>(8, n - done);
        if (done < 512) { if (y == A_SHARED) point(s, K_READ); }
        u64 w = 0; memcpy(&w, (const char *)src + done, l);
        if (done < 512 && x == A_SHARED) point(s, K_WRITE);
        memcpy((char *)d + done, &w, l); ctr(s, w);
        done += l;
    }
    if ((u64)d - ARENA < ARENA_SZ) mark_dirty((u64)d, n);
}

static u8 *bb_cov;                        // SIM_COV=FILE: addresses of the basic blocks reached (gcc variants)
// ---- code compiled by gcc: the calls of the thread sanitizer's instrumentation
#define PC ((u32)(0x80000000u | (u32)(u64)__builtin_return_address(0)))
#define TSR(N, V) void __tsan_read##N(V *p) { if (classify((u64)p, sizeof(V), PC, false) == A_PRIV) return; ACC(p, sizeof(V)); point(PC, K_READ); V v = *(volatile V *)p; ctr(PC, v); } \
    void __tsan_write##N(V *p) { if (classify((u64)p, sizeof(V), PC, true) == A_PRIV) return; ACC(p, sizeof(V)); point(PC, K_WRITE); ctr(PC, 1); }
#define TSU(N, V) void __tsan_unaligned_read##N(V *p) { if (classify((u64)p, sizeof(V), PC, false) == A_PRIV) return; point(PC, K_READ); ctr(PC, 2); } \
    void __tsan_unaligned_write##N(V *p) { if (classify((u64)p, sizeof(V), PC, true) == A_PRIV) return; ACC(p, sizeof(V)); point(PC, K_WRITE); ctr(PC, 1); }
TSR(1, u8) TSR(2, uint16_t) TSR(4, u32) TSR(8, u64) TSU(2, uint16_t) TSU(4, u32) TSU(8, u64)
void __tsan_read16(void *p) { if (classify((u64)p, 16, PC, false) != A_PRIV) point(PC, K_READ); }
void __tsan_write16(void *p) { if (classify((u64)p, 16, PC, true) != A_PRIV) point(PC, K_WRITE); }
void __tsan_unaligned_read16(void *p) { if (classify((u64)p, 16, PC, false) != A_PRIV) point(PC, K_READ); }
void __tsan_unaligned_write16(void *p) { if (classify((u64)p, 16, PC, true) != A_PRIV) point(PC, K_WRITE); }
void __tsan_read_range(void *p, u64 n) { if (n && classify((u64)p, n, PC, false) != A_PRIV) point(PC, K_READ); }
void __tsan_write_range(void *p, u64 n) { if (n && classify((u64)p, n, PC, true) != A_PRIV) { if (((u64)p) - ARENA < ARENA_SZ) mark_dirty((u64)p, n); point(PC, K_WRITE); } }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __sanitizer_cov_trace_pc() {
    if (unlikely(!in_run)) return;
    if (unlikely(bb_cov != 0)) { u32 k = (u32)(u64)__builtin_return_address(0) & 0xffffff; bb_cov[k] = 1; }
    Th &t = T[cur];
    if (unlikely(++t.ticks >= 20000)) { t.ticks = 0; S.step += 20; point(PC, K_TICK); }
}
#define TSA(N, V) \
    V __tsan_atomic##N##_load(V *p, int) { return do_load<V>(p, PC); } \
    void __tsan_atomic##N##_store(V *p, V v, int) { do_store<V>(p, v, PC); } \
    V __tsan_atomic##N##_exchange(V *p, V v, int) { return do_rmw<V>(0, p, v, PC); } \
    V __tsan_atomic##N##_fetch_add(V *p, V v, int) { return do_rmw<V>(1, p, v, PC); } \
    V __tsan_atomic##N##_fetch_sub(V *p, V v, int) { return do_rmw<V>(2, p, v, PC); } \
    V __tsan_atomic##N##_fetch_and(V *p, V v, int) { return do_rmw<V>(3, p, v, PC); } \
    V __tsan_atomic##N##_fetch_or(V *p, V v, int) { return do_rmw<V>(4, p, v, PC); } \
    V __tsan_atomic##N##_fetch_xor(V *p, V v, int) { return do_rmw<V>(5, p, v, PC); } \
    V __tsan_atomic##N##_fetch_nand(V *p, V v, int) { return do_rmw<V>(6, p, v, PC); } \
    V __tsan_atomic##N##_compare_exchange_val(V *p, V c, V v, int, int) { return do_cas<V>(p, c, v, PC); } \
    int __tsan_atomic##N##_compare_exchange_strong(V *p, V *c, V v, int, int) { V o = *c, r = do_cas<V>(p, o, v, PC); if (r == o) return 1; *c = r; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(V *p, V *c, V v, int, int) { V o = *c, r = do_cas<V>(p, o, v, PC); if (r == o) return 1; *c = r; return 0; }
TSA(8, u8) TSA(16, uint16_t) TSA(32, u32) TSA(64, u64)
void __tsan_atomic_thread_fence(int) { sim_fence(PC); }
void __tsan_atomic_signal_fence(int) {}
void sim_g_pause_c(u64 pc) { point(0x80000000u | (u32)pc, K_PAUSE); }
void sim_g_fence_c(u64 pc) { sim_fence(0x80000000u | (u32)pc); }
void sim_g_asm16_c(u64 pc) { u32 s = 0x80000000u | (u32)pc; point(s, K_RMW); Th &t = T[cur]; t.rmws++; t.ro = 0; t.last_rmw_step = t.lstep; t.at[0]++; ctr(s, 16); }
void sim_g_cpuid_c(u64 *bcd) { u32 b, d, c; sim_cpuid(&b, &d, &c); bcd[0] = b; bcd[1] = c; bcd[2] = d; }
#define PUSHALL " pushfq\n push %rax\n push %rbx\n push %rcx\n push %rdx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n push %rbp\n mov %rsp,%rbp\n sub $512,%rsp\n and $-64,%rsp\n fxsave (%rsp)\n"
#define POPALL " fxrstor (%rsp)\n mov %rbp,%rsp\n pop %rbp\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rdx\n pop %rcx\n pop %rbx\n pop %rax\n popfq\n ret\n"
#define GSTUB(N) asm(".text\n.globl " #N "\n" #N ":\n" PUSHALL " mov 96(%rbp),%rdi\n call " #N "_c\n" POPALL);
GSTUB(sim_g_pause) GSTUB(sim_g_fence) GSTUB(sim_g_asm16)
// the saved rbx, rcx and rdx are overwritten: rbp+88 flags, 80 rax, 72 rbx, 64 rcx, 56 rdx
asm(".text\n.globl sim_g_cpuid\nsim_g_cpuid:\n" PUSHALL " sub $64,%rsp\n mov %rsp,%rdi\n mov %rsp,%rbx\n call sim_g_cpuid_c\n mov (%rbx),%rax\n mov %rax,72(%rbp)\n mov 8(%rbx),%rax\n mov %rax,64(%rbp)\n mov 16(%rbx),%rax\n mov %rax,56(%rbp)\n add $64,%rsp\n" POPALL);

// thread-local storage of the code under test
struct EmuCtl { u64 size, align, index; void *templ; };
static std::vector<EmuCtl *> emu; static u64 emu_off = 64;
void *__emutls_get_address(EmuCtl *c) {
    if (unlikely(!c->index)) {
        if (c->align < 8) c->align = 8;
        emu_off = (emu_off + c->align - 1) & ~(c->align - 1);
        emu.push_back(c);
        c->index = emu_off | ((u64)emu.size() << 32);
        emu_off += c->size;
        if (emu_off > TLS_SZ) abort();
    }
    u64 id = (c->index >> 32) - 1, off = c->index & 0xffffffff;
    char *p = (char *)(TLSB + (u64)cur * TLS_SZ + off);
    Th &t = T[cur];
    if (unlikely(!(t.tls_init[id >> 6] >> (id & 63) & 1))) {
        t.tls_init[id >> 6] |= 1ULL << (id & 63);
        if (c->templ) memcpy(p, c->templ, c->size); else memset(p, 0, c->size);
    }
    return p;
}
}
// ---------------------------------------------------------------- thread creation
static void thread_main() {
    Th &t = T[cur];
    t.fn(t.arg);
    sim_flush();
    int me = cur;
    T[me].st = T_OVER; over_cnt++;
    T[me].in_op = false;
    S.step++;
    if (me == 0) { leave_run(); }
    int n = -1;
    // default rule: round robin; exploration may deviate
    n = rr_next(me);
    if (n < 0) leave_run();
    if (S.replay) {
        while (T[me].ev_i < T[me].evs.size()) { Event &e = T[me].evs[T[me].ev_i++]; if (e.lstep == T[me].lstep + 1 && e.next >= 0 && e.next < nth && runnable(e.next)) n = e.next; }
    } else if (S.explore && S.gate && S.step < S.chaos_end && S.strat != 1) {
        int w = S.strat == 2 ? pct_best(true) : rand_other();
        if (w >= 0 && w != n && runnable(w)) { record(me, T[me].lstep + 1, w, 0); n = w; }
    }
    switch_to(n);
    __builtin_unreachable();
}
static void reset_thread(Th &t) {
    t.st = T_RUN; t.lstep = 0; t.ev_i = 0; t.evs.clear(); t.ev_step = ~0ULL; t.stall_until = 0; t.ro = 0; t.cpu = ~0u; t.cpu_set = 0; t.rmws = 0;
    t.op_start = 0; t.op = -1; t.in_op = false; t.crashable = false; t.stack_shared = t.tls_shared = false; t.sb.clear(); t.sb_head = 0; t.sb_cnt = 0;
    memset(t.tls_init, 0, sizeof t.tls_init); t.ticks = t.tk = t.op_tk = 0; t.last_rmw_step = ~0ULL >> 1; t.prio = 0; t.mallocs = 0; memset(t.at, 0, sizeof t.at); t.asm_p = 0;
}
static int new_thread(void *(*fn)(void *), void *arg, bool crashable) {
    if (nth >= MAXT) return -1;
    int i = nth++;
    Th &t = T[i];
    reset_thread(t);
    t.fn = fn; t.arg = arg; t.crashable = crashable;
    if (S.replay) { for (auto &e : R->spec->events) if (e.tid == i) t.evs.push_back(e);
        std::stable_sort(t.evs.begin(), t.evs.end(), [](const Event &a, const Event &b) { return a.lstep < b.lstep; });
        t.ev_step = t.evs.empty() ? ~0ULL : t.evs[0].lstep; }
    t.prio = S.explore ? (i64)S.rng.below(1 << 30) : 0;
    u64 top = STK + (u64)(i + 1) * STK_SZ;
    memset((void *)(top - 8192), 0x5A, 8192);
    u64 *s = (u64 *)(top - 64);
    *--s = 0;                       // alignment: entry expects rsp % 16 == 8
    *--s = (u64)thread_main;
    for (int k = 0; k < 6; k++) *--s = 0;
    t.sp = (u64)s;
    if (tls_n) { tls_save[i] = tls_init0; if (i == 0) memcpy(tls_live, tls_init0.data(), tls_n); }
    if (i > 0) R->threads_created++;
    return i;
}
int sim_tid() { return cur; }
int sim_spawn(void *(*fn)(void *), void *arg, bool crashable) { int i = new_thread(fn, arg, crashable); if (i < 0) abort(); point(0, K_SYS); return i; }
bool sim_thread_over(int t) { return T[t].st != T_RUN; }
bool sim_thread_crashed(int t) { return T[t].st == T_CRASHED; }
void sim_wait_all() {
    for (;;) {
        bool any = false;
        for (int i = 0; i < nth; i++) if (i != cur && T[i].st == T_RUN) any = true;
        if (!any) break;
        point(0, K_YIELD);
    }
    for (int i = 0; i < nth; i++) flush_sb(T[i]);
}
void sim_yield() { point(0, K_YIELD); }
void sim_point_here() { point(0, K_OPB); }
u64 sim_now() { return S.step; }
u64 sim_event() { return ++S.evno; }
u64 sim_own_steps() { return T[cur].lstep; }
u64 sim_rmw_count(int t) { return T[t].rmws; }
u64 sim_atomics(int t, int k) { if (T[t].asm_p) asm_settle(T[t]); return T[t].at[k]; }
void sim_set_crashable(bool c) { T[cur].crashable = c; }
void sim_track_fresh() { fresh_on = true; }
u64 sim_fresh() { return fresh.size(); }
u64 sim_fresh_first() { u64 a = fresh_first; fresh_first = 0; return a; }
u64 sim_dirty_pages() { return dirty_list.size(); }
int sim_threads() { return nth; }
void sim_flush_own() { sim_flush(); }
void sim_set_mem_limit(u64 b) { mem_limit = b; }
void sim_nofault_begin() { S.nofault = true; }
void sim_nofault_end() { S.nofault = false; }
void sim_open_gate() {
    if (S.gate) return;
    S.gate = true;
    u64 cl = (u64)R->get("chaos", 4000);
    S.chaos_end = S.step + cl;
    S.limit = S.step + cl + (u64)R->get("fair", 400000);
    S.prog = 0;
    if (S.explore) {
        arm();
        S.next_stall = S.stall_num ? S.step + geo(S.stall_den) : ~0ULL >> 2;
        S.next_crash = S.crash_left > 0 ? S.step + geo(S.crash_den) : ~0ULL >> 2;
        if (S.hold_den) { S.next_hold = S.step + geo(S.hold_den); S.hold_mode = S.hold_only >= 0 ? 0 : (int)S.rng.below(3); }
        if (S.strat == 2) { for (auto &x : S.pct_pts) x += S.step; arm(); }
    }
    set_slow();
}
bool sim_chaos_over() { return S.step >= S.chaos_end; }
void sim_solo(u64 op_bound) { S.op_bound = op_bound; }
void sim_set_turn_bound(u64 b) { S.tick_bound = b; }
void sim_hold_me() { S.hold_only = cur; S.hold_mode = 0; S.hold_left = 0; if (S.explore && S.hold_den) { S.next_hold = S.step + geo(S.hold_den); set_slow(); } }
void sim_starve_me(u64 l) { S.starve_tid = cur; S.starve_len = l; }
void sim_set_wait_mark(u64 k) { S.wait_mark = k; }
void sim_set_prog_bound(u64 b) { S.prog_bound = b; S.prog = 0; }
void sim_probe(const char *n) { if (R) R->probes[n]++; }
int op_begin(int pid, int kind, i64 a, i64 b) {
    point(0, K_OPB);
    OpRec o; o.pid = pid; o.kind = kind; o.a = a; o.b = b; o.ret = 0; o.inv = ++S.evno; o.res = ~0ULL; o.done = false; o.lsteps = 0; o.tid = cur; o.wait = ~0ULL;
    R->ops.push_back(o);
    Th &t = T[cur]; t.op_start = t.lstep; t.op = (int)R->ops.size() - 1; t.in_op = true; t.op_tk = t.tk;
    return t.op;
}
void op_end(int h, i64 ret) {
    sim_flush();
    OpRec &o = R->ops[h]; o.ret = ret; o.res = ++S.evno; o.done = true;
    Th &t = T[cur]; o.lsteps = t.lstep - t.op_start; t.in_op = false;
    if (o.lsteps > R->maxop) R->maxop = o.lsteps;
    if (t.tk - t.op_tk > R->maxturns) R->maxturns = t.tk - t.op_tk;
    S.prog = 0;
    hmix((u64)ret * 31 + (u64)h);
}
void *sim_calloc(size_t n) { u64 a = arena_alloc(n, 64, 2, false); if (n > 65536) mark_dirty(a, n); return (void *)a; }
u64 sim_live_bytes() { return R->live_bytes; }
bool sim_is_live(const void *p, size_t n) { int i = find_blk((u64)p); return i >= 0 && !blks[i].freed && (u64)p + n <= blks[i].end; }
u64 sim_live_blocks() { u64 n = 0; for (auto &b : blks) if (b.kind != 2 && !b.freed) n++; return n; }
int sim_thread_cpu(int t) { return (int)T[t].cpu; }
u64 sim_bytes_requested() { return R->alloc_bytes; }

// ---------------------------------------------------------------- simulated operating system
static i64 cfg_ncpus() { return R->get("ncpus", 8); }
static i64 cfg_nodes() { return R->get("nodes", 2); }
int sim_node_of_cpu(int c) {
    i64 n = cfg_ncpus(), k = cfg_nodes();
    if (c < 0 || c >= n) return -1;
    if (R->get("smt", 0)) {                      // second half are the siblings of the first half
        i64 h = n / 2; if (h < 1) return 0;
        i64 x = c % h; i64 per = h / k; if (per < 1) per = 1;
        return (int)std::min<i64>(x / per, k - 1);
    }
    i64 per = n / k; if (per < 1) per = 1;
    return (int)std::min<i64>(c / per, k - 1);
}
static void *sys_alloc(u64 n, u64 align, int kind) {
    i64 k = (i64)++R->alloc_calls;
    if (R->get("alloc_fail_at", 0) == k) { R->faults[F_ALLOCFAIL]++; errno = ENOMEM; return NULL; }
    u64 cap = (u64)R->get("mem_cap", 0);
    if (cap && R->live_bytes + n > cap) { R->faults[F_ALLOCFAIL]++; errno = ENOMEM; return NULL; }
    R->alloc_bytes += n; R->live_bytes += n;
    if (mem_limit && R->live_bytes > mem_limit) sim_fail("memory-growth", "the code under test holds %llu bytes, more than the bound of %llu", (unsigned long long)R->live_bytes, (unsigned long long)mem_limit);
    return (void *)arena_alloc(n, align, kind, kind == 1);
}
static void bad_free(const char *fn, void *p, u64 n, const char *why) {
    R->probes["bad_free"]++;
    if (strict_mem || R->get("strict_free", 0)) sim_fail("memory", "%s(arena+0x%llx, %llu) by thread %d: %s", fn, (unsigned long long)((u64)p - ARENA), (unsigned long long)n, cur, why);
}
static void rel(int i) {
    u64 sp = (u64)__builtin_frame_address(0);
    if (sp >= blks[i].a && sp < blks[i].end) sim_fail("memory", "thread %d gives back the memory of the stack it is running on", cur);
    blks[i].freed = 1; R->live_bytes -= blks[i].req; R->free_calls++;
}
extern "C" {
int sim_pthread_create(void *out, const void *, void *(*fn)(void *), void *arg) {
    if (R->get("thread_fail_at", 0) == R->threads_created + 1) { R->faults[F_THREADFAIL]++; R->threads_created++; return EAGAIN; }
    int i = new_thread(fn, arg, false);
    if (i < 0) return EAGAIN;
    u64 id = (u64)i + 1; do_store<u64>((u64 *)out, id, 0);
    return 0;
}
int sim_pthread_join(u64 t, void **r) { while (T[t - 1].st == T_RUN) point(0, K_YIELD); if (r) *r = 0; return 0; }
int sim_pthread_detach(u64) { return 0; }
u64 sim_pthread_self() { return (u64)cur + 1; }
int sim_pthread_setconcurrency(int) { return 0; }
int sim_pthread_yield() { point(0, K_YIELD); return 0; }
int sim_sched_yield() { point(0, K_YIELD); return 0; }
int sim_sched_getcpu() { return (int)(T[cur].cpu == ~0u ? 0 : T[cur].cpu); }
int sim_pthread_attr_init(void *) { return 0; }
int sim_sched_setaffinity(int, size_t len, const cpu_set_t *m) {
    if (R->get("aff_fail", 0)) { R->faults[F_AFFINFAIL]++; errno = EPERM; return -1; }
    int first = -1;
    for (int c = 0; c < (int)len * 8 && c < CPU_SETSIZE; c++) if (CPU_ISSET(c, m) && c < cfg_ncpus()) { first = c; break; }
    if (first < 0) { errno = EINVAL; R->probes["bad_affinity"]++; T[cur].cpu = (u32)-2; return -1; }
    T[cur].cpu = (u32)first; T[cur].cpu_set++;
    return 0;
}
int sim_pthread_setaffinity_np(u64, size_t len, const cpu_set_t *m) { return sim_sched_setaffinity(0, len, m); }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return cfg_ncpus(); if (n == _SC_PAGESIZE) return 4096; return -1; }
int sim_get_nprocs() { return (int)cfg_ncpus(); }
int sim_numa_available() { return 0; }
int sim_numa_num_task_nodes() { return (int)cfg_nodes(); }
int sim_numa_num_configured_nodes() { return (int)cfg_nodes(); }
int sim_numa_max_node() { return (int)cfg_nodes() - 1; }
int sim_numa_node_of_cpu(int c) { int n = sim_node_of_cpu(c); if (n < 0) errno = EINVAL; return n; }
void *sim_numa_alloc_local(size_t n) { return sys_alloc(n, 4096, 0); }
void *sim_numa_alloc(size_t n) { return sys_alloc(n, 4096, 0); }
void *sim_numa_alloc_onnode(size_t n, int) { return sys_alloc(n, 4096, 0); }
void sim_numa_free(void *p, size_t n) {
    if (!p) return;
    u64 a = (u64)p;
    int i = find_blk(a);
    if (a & 4095) { bad_free("numa_free", p, n, "address is not page aligned: the mapping stays"); return; }
    if (i < 0 || blks[i].a != a || blks[i].kind != 0) { bad_free("numa_free", p, n, "not the start of a mapping"); return; }
    if (blks[i].freed) { sim_fail("memory", "double free of arena+0x%llx by thread %d", (unsigned long long)(a - ARENA), cur); }
    if (((n + 4095) & ~4095ULL) != ((blks[i].req + 4095) & ~4095ULL)) { bad_free("numa_free", p, n, fmt("the mapping has %llu bytes", (unsigned long long)blks[i].req).c_str()); return; }
    rel(i);
}
void *sim_malloc(size_t n) { return sys_alloc(n, 16, 1); }
void *sim_calloc_(size_t n, size_t m) { void *p = sys_alloc(n * m, 16, 1); if (p) { memset(p, 0, n * m); } return p; }
void *sim_memalign(size_t al, size_t n) { return sys_alloc(n, al < 16 ? 16 : al, 1); }
void *sim_aligned_alloc(size_t al, size_t n) { return sys_alloc(n, al < 16 ? 16 : al, 1); }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = sys_alloc(n, al < 16 ? 16 : al, 1); if (!p) return ENOMEM; *o = p; return 0; }
void sim_free(void *p) {
    if (!p) return;
    int i = find_blk((u64)p);
    if (i < 0 || blks[i].a != (u64)p || blks[i].kind != 1) { bad_free("free", p, 0, "not the start of an allocation"); return; }
    if (blks[i].freed) sim_fail("memory", "double free of arena+0x%llx by thread %d", (unsigned long long)((u64)p - ARENA), cur);
    rel(i);
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    int i = find_blk((u64)p); void *q = sim_malloc(n);
    if (q && i >= 0) { memcpy(q, p, std::min<u64>(n, blks[i].req)); mark_dirty((u64)q, n); sim_free(p); }
    return q;
}
static u64 clock_reads;
extern "C++" i64 sim_mono_ns() { return (i64)R->get("clock_base", 1000) * 1000000LL + (i64)S.step * R->get("ns_per_step", 10); }
int sim_clock_gettime(int id, struct timespec *ts) {
    clock_reads++;
    i64 f = R->get("clock_fail_from", 0);
    if (f && (i64)clock_reads >= f) { R->faults[F_CLOCKFAIL]++; errno = EINVAL; return -1; }
    i64 t = sim_mono_ns();
    if (id == CLOCK_REALTIME) {
        t += R->get("wall_off", 1600000000LL) * 1000000000LL;
        i64 je = R->get("wall_jump_every", 0);
        if (je) { i64 k = (i64)(clock_reads / (u64)je); if (k) R->faults[F_CLOCKJUMP]++; t += ((k % 2) ? -1 : 1) * k * R->get("wall_jump_ms", 5000) * 1000000LL; }
    } else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) t = (i64)S.step * R->get("ns_per_step", 10) / 3;
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}
struct simtv { long s, us; };
int sim_gettimeofday(simtv *tv, void *) { struct timespec t; sim_clock_gettime(CLOCK_REALTIME, &t); tv->s = t.tv_sec; tv->us = t.tv_nsec / 1000; return 0; }
long sim_time(long *o) { struct timespec t; sim_clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static int do_sleep(u64 ns) { u64 k = ns / (u64)std::max<i64>(1, R->get("ns_per_step", 10)); S.step += std::min<u64>(k, 20000); point(0, K_YIELD); return 0; }
int sim_usleep(unsigned us) { return do_sleep((u64)us * 1000); }
int sim_nanosleep(const struct timespec *t, void *) { return do_sleep((u64)t->tv_sec * 1000000000ULL + t->tv_nsec); }
unsigned sim_sleep(unsigned s) { do_sleep((u64)s * 1000000000ULL); return 0; }
static void outp(const char *b) { if (R->outtext.size() < 8192) R->outtext += b; hmix(strlen(b)); }
void sim_perror(const char *s) { R->probes["perror"]++; outp(s); outp(": error\n"); }
[[noreturn]] void sim_exit(int c) { R->exited = true; R->exit_code = c; leave_run(); }
[[noreturn]] void sim__exit(int c) { R->exited = true; R->exit_code = c; leave_run(); }
[[noreturn]] void sim_abort() { R->exited = true; R->exit_code = 134; leave_run(); }
int sim_printf(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); outp(b); return (int)strlen(b); }
int sim_fprintf(FILE *, const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); outp(b); return (int)strlen(b); }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *) { outp(std::string((const char *)p, s * n).c_str()); return n; }
int sim_fputs(const char *s, FILE *) { outp(s); return 1; }
int sim_fputc(int c, FILE *) { char b[2] = {(char)c, 0}; outp(b); return c; }
int sim_puts(const char *s) { outp(s); outp("\n"); return 1; }
int sim_putchar(int c) { char b[2] = {(char)c, 0}; outp(b); return c; }
int sim_fflush(FILE *) { return 0; }
void *sim_memcpy(void *d, const void *s, size_t n) { sim_memcpy_(d, s, n, 0); return d; }
void *sim_memmove(void *d, const void *s, size_t n) { sim_memcpy_(d, s, n, 0); return d; }
void *sim_memset(void *d, int c, size_t n) { sim_memset_(d, (u8)c, n, 0); return d; }
}
// `calloc` of the code under test is renamed to sim_calloc, which rt.h also declares as a C++
// function; the C symbol is bound here.
extern "C" void *sim_calloc_c(size_t n, size_t m) __asm__("sim_calloc");
extern "C" void *sim_calloc_c(size_t n, size_t m) { return sim_calloc_(n, m); }

bool sim_in_stack(const void *p) { return (u64)p - STK < MAXT * STK_SZ; }

// ---------------------------------------------------------------- run
static std::vector<char> globals0;
static void mapfix(u64 a, u64 n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { fprintf(stderr, "simrun: cannot map simulator memory\n"); exit(3); }
    madvise(p, n, MADV_NOHUGEPAGE);
}
static void on_sig(int s, siginfo_t *si, void *) {
    if (!in_run) { signal(s, SIG_DFL); raise(s); return; }
    if (R->cls.empty()) { R->cls = "memory"; R->msg = fmt("signal %d (%s) at address 0x%llx in thread %d", s, s == SIGFPE ? "arithmetic exception" : s == SIGSEGV ? "invalid access" : "fault", (unsigned long long)(s == SIGFPE ? 0 : (u64)si->si_addr), cur); if (s == SIGFPE) R->cls = "arith"; }
    siglongjmp(sig_exit, 1);
}
static void sim_init() {
    mapfix(ARENA, ARENA_SZ); mapfix(STK, (u64)MAXT * STK_SZ); mapfix(TLSB, (u64)MAXT * TLS_SZ);
    dirty = (u8 *)mmap(0, ARENA_SZ >> 12, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sd_lo = (u64)__start_simdata; sd_hi = (u64)__stop_simdata;
    img_lo = (u64)&__executable_start; img_hi = (u64)&_end;
    globals0.assign(__start_simdata, __stop_simdata);
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            tls_live = (char *)i->dlpi_tls_data; tls_n = i->dlpi_phdr[k].p_memsz; tls_init0.assign(tls_n, 0);
            memcpy(tls_init0.data(), (void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz);
        }
        return 1;                           // the first one is the executable
    }, 0);
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
}
static void mem_reset() {
    for (auto &b : blks) if (b.stack && b.end - b.a > 65536) madvise((void *)(b.a & ~4095ULL), b.end - b.a + 4096, MADV_DONTNEED);
    if (dirty_list.size() > 20000) madvise((void *)ARENA, brk_ - ARENA + 8192, MADV_DONTNEED);
    else for (u32 p : dirty_list) memset((void *)(ARENA + ((u64)p << 12)), 0, 4096);
    for (u32 p : dirty_list) dirty[p] = 0;
    fresh_on = false; fresh_first = 0; fresh.clear();
    dirty_list.clear(); blks.clear(); brk_ = ARENA + 4096; memset(bcache, 0, sizeof bcache);
}
static Scenario *cur_sc;
static void *body_main(void *) { cur_sc->body(*R); return 0; }
static std::vector<Scenario> &scs() { static std::vector<Scenario> v; return v; }
void register_scenario(Scenario s) { scs().push_back(s); }
Scenario *find_scenario(const std::string &n) { for (auto &s : scs()) if (n == s.name) return &s; return 0; }

static void execute(const Spec &spec, Run &run, Spec *out, bool explore) {
    if (getenv("SIM_STEPLOG") && getenv("SIM_STEPLOG_ON")) { static int k; if (steplog) fclose(steplog); steplog = fopen(fmt("%s.%d", getenv("SIM_STEPLOG"), k++).c_str(), "w"); }
    mem_reset();
    memcpy(__start_simdata, globals0.data(), globals0.size());
    for (EmuCtl *c : emu) c->index = 0;
    emu.clear(); emu_off = 64;
    run.spec = &spec; run.out = out; R = &run;
    nth = 0; cur = 0; over_cnt = 0; clock_reads = 0; mem_limit = 0;
    strict_mem = spec.get("strict_mem", 0);
    S = Sched();
    S.explore = explore; S.replay = !explore;
    S.rng = Rng(mix2(spec.seed, 77));
    S.limit = (u64)spec.get("setup_limit", 3000000); S.chaos_end = 0; S.gate = false;
    S.strat = (int)spec.get("strat", 0); S.p = (u64)spec.get("p", 20); S.quantum = (u64)spec.get("quantum", 5);
    S.stall_num = (int)spec.get("stall", 0); S.stall_den = (u64)std::max<i64>(1, spec.get("stall_den", 300)); S.stall_len = (u64)spec.get("stall_len", 5);
    S.rmw_den = (u64)spec.get("rmw_den", 0); S.opb_den = (u64)spec.get("opb_den", 2);
    S.victim = (int)spec.get("victim", 1);
    S.crash_left = (int)spec.get("crashes", 0); S.crash_den = (u64)spec.get("crash_den", 200);
    S.hold_den = (u64)spec.get("hold", 0); S.hold_max = (u64)spec.get("hold_max", 1000); S.hold_only = -1;
    S.Q = (u64)spec.get("Q", 400); S.ro_limit = (u32)spec.get("ro_limit", 64);
    S.tso = spec.get("tso", 0); S.pso = spec.get("pso", 0); S.tso_max = (u64)std::max<i64>(2, spec.get("tso_max", 200)); S.tso_seed = (u64)spec.get("tso_seed", 1);
    S.sb_min = ~0ULL; S.op_bound = 0; S.prog_bound = 0; S.solo = -1; S.next_dev = S.next_stall = S.next_crash = ~0ULL >> 2;
    for (int i = 0, d = (int)spec.get("pct_d", 3); i < d; i++) S.pct_pts.push_back(S.rng.below((u64)spec.get("pct_len", 2000)) + 1);
    std::sort(S.pct_pts.begin(), S.pct_pts.end());
    cur_sc = find_scenario(spec.scenario);
    if (!cur_sc) { fprintf(stderr, "simrun: unknown scenario %s\n", spec.scenario.c_str()); exit(3); }
    new_thread(body_main, 0, false);
    set_slow();
    in_run = true;
    if (sigsetjmp(sig_exit, 0) == 0) sim_switch(&driver_sp, T[0].sp);
    in_run = false;
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, 0);
    run.steps = S.step;
    run.finished = T[0].st == T_OVER;
    if (steplog) { fclose(steplog); steplog = 0; }
    if (run.cls.empty()) cur_sc->check(run);
    if (!run.cls.empty()) for (char c : run.cls) hmix((u64)c);
}

// ---------------------------------------------------------------- strategy generation
static void gen_strategy(Spec &s, Rng &r) {
    static const i64 P[] = {2, 3, 5, 10, 20, 50, 100, 300};
    s.setdef("strat", (i64)(r.below(10) < 4 ? 0 : r.below(3) == 0 ? 2 : r.below(2) ? 1 : r.below(2) ? 4 : 3));
    s.setdef("victim", (i64)r.below((u64)std::max<i64>(1, s.get("n", 2))) + (i64)r.below(2));
    s.setdef("p", P[r.below(8)]);
    static const i64 QU[] = {1, 2, 3, 4, 5, 7, 10, 20, 50};
    s.setdef("quantum", QU[r.below(9)]);
    s.setdef("pct_d", (i64)r.below(8) + 1);
    static const i64 PL[] = {100, 300, 1000, 3000};
    s.setdef("pct_len", PL[r.below(4)]);
    s.setdef("stall", r.below(2) || s.get("strat") == 1);
    static const i64 SD[] = {20, 50, 100, 200, 500, 1500};
    s.setdef("stall_den", SD[r.below(6)]);
    s.setdef("stall_len", (i64)r.below(8) + 1);
    static const i64 RD[] = {0, 0, 2, 4, 8, 16, 40};
    s.setdef("rmw_den", RD[r.below(7)]);
    if (s.get("strat") == 1 && !s.get("rmw_den") && r.below(2)) s.set("rmw_den", 6);
    static const i64 OD[] = {0, 1, 2, 2, 4, 8};
    s.setdef("opb_den", OD[r.below(6)]);
    if (s.get("strat") == 1 && r.below(4) == 0) s.set("stall", 0), s.set("rmw_den", 0), s.set("opb_den", 0);   // pure lockstep
    static const i64 HD[] = {10, 30, 100, 300, 1000}, HM[] = {200, 1000, 5000, 20000};
    i64 hd = HD[r.below(5)], hm = HM[r.below(4)];
    s.setdef("hold", r.below(4) ? 0 : hd); s.setdef("hold_max", hm);
    static const i64 CH[] = {300, 1000, 3000, 10000, 30000};
    s.setdef("chaos", CH[r.below(5)]);
    s.setdef("tso", s.get("pso") ? r.below(6) != 0 : r.below(3) == 0);
    static const i64 TM[] = {10, 50, 300, 3000};
    s.setdef("tso_max", TM[r.below(4)]);
    s.setdef("tso_seed", (i64)(r.next() >> 2));
}

// ---------------------------------------------------------------- files
static void save_spec(const Spec &s, const std::string &path) {
    std::string t = path + ".tmp";
    FILE *f = fopen(t.c_str(), "w"); if (!f) { perror(t.c_str()); exit(3); }
    fprintf(f, "simreplay 1\ncheck %s\nscenario %s\nvariant %s\nseed %llu\nclass %s\nmessage %s\nhash %016llx\n", s.check.c_str(), s.scenario.c_str(), s.variant.c_str(), (unsigned long long)s.seed, s.cls.c_str(), s.msg.c_str(), (unsigned long long)s.hash);
    for (auto &c : s.cfg) fprintf(f, "cfg %s %lld\n", c.first.c_str(), (long long)c.second);
    for (auto &o : s.ops) fprintf(f, "op %d %d %lld %lld\n", o.pid, o.kind, (long long)o.a, (long long)o.b);
    for (auto &e : s.events) fprintf(f, "ev %d %llu %d %llu\n", e.tid, (unsigned long long)e.lstep, e.next, (unsigned long long)e.arg);
    fclose(f); rename(t.c_str(), path.c_str());
}
static bool load_spec(Spec &s, const char *path) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char l[8192];
    while (fgets(l, sizeof l, f)) {
        char a[4096]; long long x, y; unsigned long long u, w; int p, k;
        l[strcspn(l, "\n")] = 0;
        if (sscanf(l, "check %4000s", a) == 1) s.check = a;
        else if (sscanf(l, "scenario %4000s", a) == 1) s.scenario = a;
        else if (sscanf(l, "variant %4000s", a) == 1) s.variant = a;
        else if (sscanf(l, "seed %llu", &u) == 1) s.seed = u;
        else if (sscanf(l, "class %4000s", a) == 1) s.cls = a;
        else if (!strncmp(l, "message ", 8)) s.msg = l + 8;
        else if (sscanf(l, "hash %llx", &u) == 1) s.hash = u;
        else if (sscanf(l, "cfg %4000s %lld", a, &x) == 2) s.cfg[a] = x;
        else if (sscanf(l, "op %d %d %lld %lld", &p, &k, &x, &y) == 4) s.ops.push_back({p, k, x, y});
        else if (sscanf(l, "ev %d %llu %d %llu", &p, &u, &k, &w) == 4) s.events.push_back({p, u, k, w});
    }
    fclose(f); s.replay = true;
    return !s.scenario.empty();
}
static void load_sites(const char *exe) {
    if (FILE *f = fopen((std::string(exe) + ".syms").c_str(), "r")) {
        char l[1024], n[900]; unsigned long long a; char k;
        while (fgets(l, sizeof l, f)) if (sscanf(l, "%llx %c %899s", &a, &k, n) == 3 && (k == 't' || k == 'T')) syms[a] = n;
        fclose(f);
    }
    std::string p = std::string(exe) + ".sites";
    FILE *f = fopen(p.c_str(), "r"); if (!f) return;
    char l[1024]; unsigned id; char n[900];
    while (fgets(l, sizeof l, f)) if (sscanf(l, "%u\t%899[^\n]", &id, n) == 2) { if (site_names.size() <= id) site_names.resize(id + 1); site_names[id] = n; }
    fclose(f);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// does the spec, executed by its events, violate with the same class?
static bool still(const Spec &s, const std::string &cls, Run &r) {
    r = Run(); Spec c = s; c.replay = true;
    execute(c, r, nullptr, false);
    return r.cls == cls;
}
static void minimise(Spec &s, double budget) {
    double end = now() + budget;
    std::string cls = s.cls; Run r;
    auto try_ = [&](Spec c) { if (now() > end) return false; if (!still(c, cls, r)) return false; s = c; return true; };
    // a simpler world first
    if (s.get("tso")) { Spec c = s; c.set("tso", 0); try_(c); }
    bool again = true;
    for (int round = 0; round < 4 && again && now() < end; round++) {
        again = false;
        // events, ddmin
        size_t n = 2;
        while (s.events.size() >= 1 && now() < end) {
            size_t len = (s.events.size() + n - 1) / n; bool red = false;
            for (size_t i = 0; i < s.events.size() && now() < end; i += len) {
                Spec c = s; c.events.erase(c.events.begin() + i, c.events.begin() + std::min(i + len, c.events.size()));
                if (try_(c)) { red = true; again = true; n = std::max<size_t>(n - 1, 2); break; }
            }
            if (!red) { if (n >= s.events.size()) break; n = std::min(s.events.size(), n * 2); }
        }
        // operations, one by one from the end
        if (!s.get("fixed_ops", 0)) for (size_t i = s.ops.size(); i-- > 0 && now() < end;) {
            if (i >= s.ops.size()) continue;
            Spec c = s; c.ops.erase(c.ops.begin() + i);
            if (try_(c)) again = true;
        }
        // shorter stalls
        for (size_t i = 0; i < s.events.size() && now() < end; i++) if (s.events[i].next == EV_STALL && s.events[i].arg > 100) {
            Spec c = s; c.events[i].arg /= 4; try_(c); }
    }
    still(s, cls, r);
    s.msg = r.msg; s.hash = r.hash; s.cls = r.cls;
}

static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o; }

struct Known { std::string cls, sub, scen; };
int main(int argc, char **argv) {
    std::map<std::string, std::string> opt;
    for (int i = 2; i + 1 < argc; i += 2) if (!strncmp(argv[i], "--", 2)) opt[argv[i] + 2] = argv[i + 1];
    load_sites(argv[0]);
    sim_init();
    if (getenv("SIM_COV")) bb_cov = (u8 *)calloc(1, 0x1000000);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        Spec s; if (!load_spec(s, argv[2])) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        Run r; execute(s, r, nullptr, false);
        if (getenv("SIM_OPS")) for (size_t i = 0; i < r.ops.size(); i++) { auto &o = r.ops[i]; printf("  op %zu pid %d kind %d a %lld b %lld -> %lld [%llu,%lld] steps %llu\n", i, o.pid, o.kind, (long long)o.a, (long long)o.b, (long long)o.ret, (unsigned long long)o.inv, (long long)o.res, (unsigned long long)o.lsteps); }
        printf("class %s\nmessage %s\nhash %016llx\nsteps %llu\n", r.cls.empty() ? "-" : r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps);
        bool same = r.hash == s.hash && r.cls == s.cls;
        printf("%s\n", same ? "REPRODUCED" : "DIFFERENT");
        return same ? 1 : r.cls.empty() ? 0 : 2;
    }
    if (argc < 2 || strcmp(argv[1], "explore")) { fprintf(stderr, "usage: %s explore --check ID --scenarios a,b --variant V --seed S --time T --runs N --worker I --out PREFIX | replay FILE\n", argv[0]); return 3; }
    std::string check = opt["check"], variant = opt["variant"], out = opt["out"];
    std::vector<std::string> names;
    { std::string l = opt["scenarios"]; size_t p = 0; while (p <= l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); if (q > p) names.push_back(l.substr(p, q - p)); p = q + 1; } }
    u64 base = strtoull(opt["seed"].c_str(), 0, 10), worker = strtoull(opt["worker"].c_str(), 0, 10);
    double tmax = opt.count("time") ? atof(opt["time"].c_str()) : 1e9;
    u64 nmax = opt.count("runs") ? strtoull(opt["runs"].c_str(), 0, 10) : ~0ULL;
    u64 only = opt.count("only") ? strtoull(opt["only"].c_str(), 0, 10) : 0;
    std::map<std::string, i64> force;
    { std::string l = opt["cfg"]; size_t p = 0; while (p < l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); std::string kv = l.substr(p, q - p); size_t e = kv.find('='); if (e != std::string::npos) force[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); p = q + 1; } }
    std::set<std::string> classes; u64 other_cls = 0, unstable = 0;          // violation classes this check decides (all if empty)
    { std::string l = opt["classes"]; size_t p = 0; while (p < l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); classes.insert(l.substr(p, q - p)); p = q + 1; } }
    std::vector<Known> known;
    if (opt.count("known")) { FILE *f = fopen(opt["known"].c_str(), "r"); char l[2048]; if (f) { while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; char *a = strchr(l, '\t'); if (!a) continue; *a++ = 0; char *b = strchr(a, '\t'); if (!b) continue; *b++ = 0; known.push_back({a, b, l}); } fclose(f); } }
    double t0 = now(); u64 i = 0, steps = 0, ops = 0, nontriv = 0, selfchecks = 0, lin_states = 0, incon = 0, switches = 0;
    u64 faults[F_N] = {0}, maxop = 0; double simsec = 0;
    std::map<std::string, u64> probes, per_sc, cfgs, known_hits; std::map<std::string, u64> maxops;
    std::unordered_set<u64> ihs; std::vector<std::string> samples; u64 frun[F_N] = {0};
    int rc = 0; double slow = 0; u64 slow_seed = 0; std::string slow_sc; u64 skipped = 0;
    (void)lin_states; (void)incon;
    for (; i < nmax && now() - t0 < tmax; i++) {
        Spec s; s.check = check; s.variant = variant;
        s.seed = only ? only : mix2(mix2(base, 1000003 * (worker + 1)), i) >> 1;
        Rng g(s.seed);
        s.scenario = names[g.below(names.size())];
        if (opt.count("scenario")) s.scenario = opt["scenario"];
        for (auto &f : force) s.cfg[f.first] = f.second;
        Scenario *sc = find_scenario(s.scenario);
        if (!sc) { fprintf(stderr, "unknown scenario %s\n", s.scenario.c_str()); return 3; }
        sc->gen(s, g);
        gen_strategy(s, g);
        for (auto &f : force) s.cfg[f.first] = f.second;
        if (getenv("SIM_TRACE")) { fprintf(stderr, "run %llu seed %llu %s", (unsigned long long)i, (unsigned long long)s.seed, s.scenario.c_str()); for (auto &c : s.cfg) fprintf(stderr, " %s=%lld", c.first.c_str(), (long long)c.second); fprintf(stderr, "\n"); }
        Run r; Spec rec = s; rec.events.clear();
        double ta = now();
        execute(s, r, &rec, true);
        double td = now() - ta; if (td > slow) { slow = td; slow_seed = s.seed; slow_sc = s.scenario; }
        if (getenv("SIM_OPS")) for (size_t k = 0; k < r.ops.size(); k++) { auto &o = r.ops[k]; printf("  op %zu pid %d kind %d a %lld b %lld -> %lld [%llu,%lld] steps %llu\n", k, o.pid, o.kind, (long long)o.a, (long long)o.b, (long long)o.ret, (unsigned long long)o.inv, (long long)o.res, (unsigned long long)o.lsteps); }
        steps += r.steps; ops += r.ops.size(); switches += r.switches; if (r.maxop > maxop) maxop = r.maxop;
        simsec += r.steps * 1e-8;
        maxops[s.scenario] = std::max(maxops[s.scenario], r.maxop);
        for (int k = 0; k < F_N; k++) { faults[k] += r.faults[k]; frun[k] += r.faults[k] != 0; }
        for (auto &p : r.probes) { u64 &q = probes[p.first]; if (!p.first.compare(0, 4, "max_")) q = std::max<u64>(q, p.second); else q += p.second; }
        per_sc[s.scenario]++;
        u64 ih = mix2(r.ihash, s.get("obj", 0) * 1000 + (i64)s.scenario.size());
        for (char c : s.scenario) ih = mix2(ih, (u64)c);
        if (r.switches > 2 || r.faults[F_ALLOCFAIL] || r.faults[F_THREADFAIL] || r.faults[F_TOPOLOGY]) { nontriv++; if (ihs.size() < 4000000) ihs.insert(ih); }
        if (samples.size() < 3 && r.switches > 4) { std::string c = fmt("{\"scenario\":\"%s\",\"seed\":%llu,\"steps\":%llu,\"thread_switches\":%llu,\"operations\":%zu,\"cfg\":\"", s.scenario.c_str(), (unsigned long long)s.seed, (unsigned long long)r.steps, (unsigned long long)r.switches, r.ops.size()); for (auto &kv : s.cfg) c += fmt("%s=%lld ", kv.first.c_str(), (long long)kv.second); c += "\"}"; samples.push_back(c); }
        bool viol = !r.cls.empty();
        bool sample_check = (i % 64 == 7) || viol || only;
        if (sample_check) {
            selfchecks++;
            Run r2; Spec rec2 = s; rec2.events.clear();
            execute(s, r2, &rec2, true);
            if (r2.hash != r.hash || r2.cls != r.cls) { fprintf(stderr, "NONDETERMINISM scenario=%s seed=%llu hash %016llx/%016llx class %s/%s\n%s\n%s\n", s.scenario.c_str(), (unsigned long long)s.seed, (unsigned long long)r.hash, (unsigned long long)r2.hash, r.cls.c_str(), r2.cls.c_str(), r.msg.c_str(), r2.msg.c_str()); unstable++; continue; }
            Spec rp = rec; rp.replay = true; Run r3;
            execute(rp, r3, nullptr, false);
            if (r3.hash != r.hash || r3.cls != r.cls) { if (getenv("SIM_STEPLOG")) { setenv("SIM_STEPLOG_ON", "1", 1); Run a, b; Spec ra = s; ra.events.clear(); execute(s, a, &ra, true); ra.replay = true; save_spec(ra, std::string(getenv("SIM_STEPLOG")) + ".replay"); execute(ra, b, nullptr, false); }
                fprintf(stderr, "REPLAY MISMATCH scenario=%s seed=%llu hash %016llx/%016llx class %s/%s steps %llu/%llu\n%s\n%s\n", s.scenario.c_str(), (unsigned long long)s.seed, (unsigned long long)r.hash, (unsigned long long)r3.hash, r.cls.c_str(), r3.cls.c_str(), (unsigned long long)r.steps, (unsigned long long)r3.steps, r.msg.c_str(), r3.msg.c_str()); unstable++; continue; }
        }
        if (viol) {
            bool kn = false;
            for (auto &k : known) if (k.cls == r.cls && (k.scen == "*" || k.scen == s.scenario) && r.msg.find(k.sub) != std::string::npos) { known_hits[k.scen + "\t" + k.cls + "\t" + k.sub]++; kn = true; break; }
            if (kn) { skipped++; continue; }
            if (!classes.empty() && !classes.count(rec.cls.empty() ? r.cls : rec.cls)) { other_cls++; continue; }
            rec.cls = r.cls; rec.msg = r.msg; rec.hash = r.hash; rec.replay = true;
            save_spec(rec, out + ".full.replay");
            double bud = opt.count("min") ? atof(opt["min"].c_str()) : 20;
            minimise(rec, bud);
            save_spec(rec, out + ".replay");
            fprintf(stderr, "VIOLATION scenario=%s seed=%llu class=%s: %s (events %zu, ops %zu)\n", s.scenario.c_str(), (unsigned long long)s.seed, rec.cls.c_str(), rec.msg.c_str(), rec.events.size(), rec.ops.size());
            rc = 1; i++; break;
        }
        if (only) { i++; break; }
    }
    // A run that does not repeat exactly is an error of the simulation (or the library acts on the contents of dead or
    // foreign memory): it never counts as explored, but a violation found by another run, which does repeat, goes first.
    if (unstable && !rc) { fprintf(stderr, "%llu of %llu runs did not repeat exactly\n", (unsigned long long)unstable, (unsigned long long)i); rc = 4; }
    if (bb_cov) { FILE *c = fopen(getenv("SIM_COV"), "w"); if (c) { for (u32 k = 0; k < 0x1000000; k++) if (bb_cov[k]) fprintf(c, "%x\n", k); fclose(c); } }
    FILE *f = fopen((out + ".json").c_str(), "w"); if (!f) { perror("stats"); return 3; }
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"ops\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"selfchecks\":%llu,\"wall\":%.3f,\"maxop\":%llu,\"slowest_s\":%.4f,\"slowest\":\"%s/%llu\",\"skipped_known\":%llu,\"other_class\":%llu", (unsigned long long)i, (unsigned long long)steps, (unsigned long long)ops, (unsigned long long)switches, (unsigned long long)nontriv, ihs.size(), (unsigned long long)selfchecks, now() - t0, (unsigned long long)maxop, slow, slow_sc.c_str(), (unsigned long long)slow_seed, (unsigned long long)skipped, (unsigned long long)other_cls);
    fprintf(f, ",\"faults\":{"); for (int k = 0; k < F_N && fault_names[k]; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)faults[k]);
    fprintf(f, "},\"fault_runs\":{"); for (int k = 0; k < F_N && fault_names[k]; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)frun[k]);
    fprintf(f, "},\"probes\":{"); { bool c = false; for (auto &p : probes) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(p.first).c_str(), (unsigned long long)p.second); c = true; } }
    fprintf(f, "},\"scenarios\":{"); { bool c = false; for (auto &p : per_sc) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", p.first.c_str(), (unsigned long long)p.second); c = true; } }
    fprintf(f, "},\"maxops\":{"); { bool c = false; for (auto &p : maxops) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", p.first.c_str(), (unsigned long long)p.second); c = true; } }
    fprintf(f, "},\"known\":{"); { bool c = false; for (auto &p : known_hits) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(p.first).c_str(), (unsigned long long)p.second); c = true; } }
    fprintf(f, "},\"samples\":["); for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s%s", k ? "," : "", samples[k].c_str());
    fprintf(f, "]}\n"); fclose(f);
    FILE *h = fopen((out + ".ih").c_str(), "wb"); if (h) { for (u64 x : ihs) fwrite(&x, 8, 1, h); fclose(h); }
    return rc;
}
