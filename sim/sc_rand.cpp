// The random helpers: a thread's numbers depend on its own seed and calls only.
#include "sc.h"
namespace {
enum { K_SEED = 1, K_RAND, K_RANGE, K_RAND32, K_RANGE32, K_YIELD, K_ROW };
struct St { int left; std::vector<std::vector<i64>> want; } W;
i64 one(const OpSpec &o) {
    switch (o.kind) {
    case K_SEED: lb_rand_seed((unsigned)o.a); return 0;
    case K_RAND: { i64 v = lb_rand(); if (v < 0 || v > 32768) sim_fail("range", "a random number is %lld", (long long)v); return v; }
    case K_RANGE: { i64 v = lb_rand_range(o.a, o.b); if (v < o.a || v > o.b) sim_fail("range", "a random number of {%lld..%lld} is %lld", (long long)o.a, (long long)o.b, (long long)v); return v; }
    case K_RAND32: return lb_rand32();
    case K_RANGE32: { i64 v = lb_rand_range32((uint32_t)o.a, (uint32_t)o.b); if (v < o.a || v > o.b) sim_fail("range", "a 32-bit random number of {%lld..%lld} is %lld", (long long)o.a, (long long)o.b, (long long)v); return v; }
    case K_ROW: {                       // neither half of the 32 bits stays the same, nor does the other generator
        u64 first = (u64)lb_rand32(), x = 0, h = first; i64 f2 = lb_rand(), y = 0;
        for (int i = 0; i < 63; i++) { u64 v = (u64)lb_rand32(); x |= v ^ first; h = mix2(h, v); i64 w = lb_rand(); y |= w ^ f2; h = mix2(h, (u64)w); }
        if (!(x & 0xffff) || !(x >> 16)) sim_fail("stuck", "64 random numbers in a row agree in %s half: 0x%llx", x & 0xffff ? "the upper" : x >> 16 ? "the lower" : "either", (unsigned long long)first);
        if (!y) sim_fail("stuck", "64 random numbers in a row are %lld", (long long)f2);
        return (i64)h;
    }
    default: sim_yield(); return 0;
    }
}
void *worker(void *arg) {
    int pid = (int)(long)arg; size_t k = 0;
    lb_rand_seed((unsigned)pid + 1);
    for (auto &o : R->spec->ops) {
        if (o.pid != pid) continue;
        int h = op_begin(pid, o.kind, o.a, o.b);
        sim_point_here();
        i64 v = one(o);
        op_end(h, v);
        i64 w = W.want[pid][k++];
        if (v != w) sim_fail("sequence", "thread %d: its call %zu after setting its seed gives %lld, alone it gives %lld", pid, k, (long long)v, (long long)w);
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 1);
    W = St(); W.left = n; W.want.resize(n);
    for (int p = 0; p < n; p++) {
        lb_rand_seed((unsigned)p + 1);
        for (auto &o : r.spec->ops) if (o.pid == p) W.want[p].push_back(o.kind == K_YIELD ? 0 : one(o));
    }
    sim_open_gate();
    for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false);
    worker(0);
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "random numbers: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.left) run_fail(r, "hang", "random numbers: %d threads never finished", W.left);
}
void gen(Spec &s, Rng &g) {
    int n = 1 + (int)g.below(6); s.set("n", n); s.set("ncpus", 8); s.set("nodes", 2);
    static const i64 SD[] = {0, 1, 2, 3, 0x9068ffff, 0x9068fffe, 0x90690000, 0x464fffff, 0x8c9ffffeLL, 0x8c9fffffLL, 0x8ca00000LL, 0xffffffffLL, 0x80000000LL, 65535, 65536, 0xffff0000LL};
    static const i64 B32[] = {0, 1, 2, 100, 65535, 65536, 0x7fffffff, 0x80000000LL, 0xfffffffeLL, 0xffffffffLL};
    auto seed = [&] { return g.below(2) ? SD[g.below(16)] : g.below(2) ? (i64)g.below(64) : (i64)(g.next() & 0xffffffff); };
    for (int p = 0; p < n; p++) {
        s.ops.push_back({p, K_SEED, seed(), 0});
        for (int k = 3 + (int)g.below(20); k > 0; k--) {
            OpSpec o{p, (int)g.below(16), 0, 0};
            if (o.kind == 0) { o.kind = K_SEED; o.a = seed(); }
            else if (o.kind <= 3) o.kind = K_RAND;
            else if (o.kind <= 6) { o.kind = K_RANGE; o.b = 1 + (g.below(4) ? (i64)g.below(32768) : (i64)g.below(8)); if (g.below(6) == 0) o.b = 32768; o.a = g.below(2) ? 0 : (i64)g.below(o.b); if (g.below(4) == 0) o.a = o.b - 1; }
            else if (o.kind <= 9) o.kind = K_RAND32;
            else if (o.kind <= 12) {
                o.kind = K_RANGE32;
                o.a = g.below(2) ? B32[g.below(9)] : (i64)(g.next() & 0xffffffff); o.b = g.below(2) ? B32[1 + g.below(9)] : (i64)(g.next() & 0xffffffff);
                if (o.a > o.b) std::swap(o.a, o.b);
                if (o.a == o.b) { if (o.a) o.a--; else o.b++; }
            }
            else o.kind = o.kind == 13 ? K_ROW : K_YIELD;
            s.ops.push_back(o);
        }
    }
    s.setdef("fair", 100000);
}
RegScenario r1({"rand", gen, body, check});
}
