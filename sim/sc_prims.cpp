// The atomic primitives on shared words, against an atomic 128-bit register.
#include "sc.h"
namespace {
struct St { long *w; int left; long calls[4], succ, stopf; u64 ex; } W;
void *worker(void *arg) {
    int pid = (int)(long)arg;
    long succ = 0, calls[4] = {0, 0, 0, 0};
    if (ad_debug()) lb_stat_start(pid);
    u64 at0 = sim_atomics(sim_tid(), 0);
    for (auto &o : R->spec->ops) {
        if (o.pid != pid) continue;
        int loc = o.kind >> 8, k = o.kind & 255;
        volatile void *p = W.w + loc * 8;
        int h = op_begin(pid, o.kind, o.a, o.b);
        i64 v = 0;
        switch (k) {
            case P_SWAP: v = (i64)lb_swap(p, (void *)o.a); break;
            case P_FAA64: v = lb_faa64(p, o.a); break;
            case P_FAA32: v = lb_faa32(p, (int)o.a); break;
            case P_CAS64: v = (o.a ^ o.b) & 1 ? lb_cas64(p, (u64)o.a, (u64)o.b) != 0 : lb_casptr(p, (void *)o.a, (void *)o.b) != 0; break;
            case P_CAS32: v = lb_cas32(p, (unsigned)o.a, (unsigned)o.b) != 0; break;
            case P_CAS128: v = lb_cas128(p, (u64)(o.a >> 32), (u64)(o.a & 0xffffffffLL), (u64)(o.b >> 32), (u64)(o.b & 0xffffffffLL)) != 0; break;
            case P_BTAS: v = (i64)((lb_btas(p, (int)(o.a & 63)) >> (o.a & 63)) & 1); break;
            case P_READ: v = h_load((volatile long *)p); break;
            case P_READ1: v = h_load((volatile long *)p + 1); break;
        }
        op_end(h, v);
        if (k == P_CAS64 || k == P_CAS32 || k == P_CAS128) { calls[0]++; succ += v != 0; calls[1] += v == 0; }
        if (k == P_SWAP) calls[2]++;
        if (k == P_FAA64 || k == P_FAA32) calls[3]++;
    }
    W.ex += sim_atomics(sim_tid(), 0) - at0;
    u64 f0 = sim_atomics(sim_tid(), 1);
    if (ad_debug()) lb_stat_stop(pid);
    W.stopf += sim_atomics(sim_tid(), 1) - f0;      // emulated: stopping the counters is itself counted in part
    for (int k = 0; k < 4; k++) W.calls[k] += calls[k];
    W.succ += succ;
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    W = St(); W.left = n;
    W.w = (long *)sim_calloc(64 * 4);
    for (int i = 0; i < 3; i++) { h_store(W.w + i * 8, r.get(fmt("i%d", i).c_str())); h_store(W.w + i * 8 + 1, 0); }
    long t0[4], t1[4], t2[4];
    if (ad_debug()) { stat_totals(t0); lb_stat_start(0); lb_stat_stop(0); stat_totals(t1); }      // what stopping the counters counts itself
    sim_open_gate();
    for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false);
    worker(0);
    sim_wait_all();
    if (ad_debug()) {
        stat_totals(t2);
        bool ef = ad_emu_faa(), es = ad_emu_swap();
        long d[4], ov[4];
        for (int k = 0; k < 4; k++) { ov[k] = (t1[k] - t0[k]) * n; d[k] = t2[k] - t1[k] - ov[k]; }
        if (d[2] != W.calls[2] || d[3] != W.calls[3]) sim_fail("stats", "%ld swaps and %ld fetch-and-adds counted, %ld and %ld executed", d[2], d[3], W.calls[2], W.calls[3]);
        long want = W.succ + (ef ? W.calls[3] : 0) + (es ? W.calls[2] : 0), sc = d[0] - d[1];
        if (sc < want || sc > want + (ef ? W.stopf : 0)) sim_fail("stats", "%ld successful compare-and-swaps counted, %ld succeeded", sc, want);
        if (d[1] < W.calls[1] || (!ef && !es && d[1] != W.calls[1])) sim_fail("stats", "%ld failed compare-and-swaps counted, %ld failed", d[1], W.calls[1]);
        if (ef ? d[0] < (long)W.ex : d[0] != (long)W.ex) sim_fail("stats", "%ld compare-and-swaps counted, %llu executed", d[0], (unsigned long long)W.ex);
        r.probes["stat_checks"]++;
    }
    for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) { int h = op_begin(0, (i << 8) | (k ? P_READ1 : P_READ), 0, 0); op_end(h, h_load(W.w + i * 8 + k)); }
    // bit helpers used by every toggle vector
    for (auto &o : r.spec->ops) {
        u64 v = (u64)o.a * 0x9e3779b97f4a7c15ULL ^ (u64)o.b; if (o.kind % 3 == 0) v &= v - 1; if (o.kind % 5 == 0) v = 1ULL << (o.b & 63);
        if (v && lb_bsf(v) != __builtin_ctzll(v)) sim_fail("bits", "the first set bit of %llx is reported as %d", (unsigned long long)v, lb_bsf(v));
        if (lb_popc(v) != (u64)__builtin_popcountll(v)) sim_fail("bits", "%llx is reported to have %llu set bits", (unsigned long long)v, (unsigned long long)lb_popc(v));
    }
}
void check(Run &r) {
    if (r.exited || W.left) { run_fail(r, "hang", "primitives: %d threads never finished", W.left); return; }
    for (int i = 0; i < 3; i++) {
        std::vector<LinOp> h;
        for (auto &o : r.ops) if (o.kind >> 8 == i) h.push_back({o.kind & 255, o.a, o.b, o.ret, o.inv, o.res, o.done});
        std::vector<i64> init = {r.get(fmt("i%d", i).c_str()), 0};
        std::string e; u64 st = 0;
        if (!linearizable(M_PRIM, h, 0, e, &st, &init, 300000)) { run_fail(r, "not-atomic", "primitives (1 swap 2 faa64 3 faa32 4 cas64/ptr 5 cas32 6 cas128 7 bit-test-and-set 8,9 read): %s", e.c_str()); return; }
        r.probes["lin_states"] += st; r.probes["lin_checks"]++;
    }
}
void gen(Spec &s, Rng &g) {
    int n = 2 + (int)g.below(4);
    if (g.below(10) == 0) n = 1;
    if (s.cfg.count("n")) n = (int)s.get("n");
    s.set("n", n); s.set("ncpus", 8); s.set("nodes", 2);
    static const i64 SP[] = {0, 1, -1, INT_MIN, INT_MAX, LONG_MAX, LONG_MIN, 0xffffffffLL, 0x100000000LL, 0x7fffffffLL};
    int nl = 1 + (int)g.below(3);
    int theme[3]; i64 init[3];
    for (int i = 0; i < 3; i++) { theme[i] = (int)g.below(6); init[i] = g.below(3) ? (i64)g.below(4) : SP[g.below(10)]; if (theme[i] == 5) init[i] = (i64)g.below(4); s.set(fmt("i%d", i).c_str(), init[i]); }
    int tot = 3 + (int)g.below(14);
    for (int i = 0; i < tot; i++) {
        int l = (int)g.below(nl), k; i64 a = 0, b = 0;
        auto val = [&]() -> i64 { return theme[l] == 5 || g.below(4) ? (i64)g.below(4) : SP[g.below(10)]; };
        switch (theme[l]) {
            case 0: { static const int K[] = {P_FAA64, P_FAA64, P_FAA32, P_READ}; k = K[g.below(4)]; break; }
            case 1: { static const int K[] = {P_SWAP, P_SWAP, P_CAS64, P_READ}; k = K[g.below(4)]; break; }
            case 2: { static const int K[] = {P_CAS64, P_CAS32, P_CAS64, P_READ}; k = K[g.below(4)]; break; }
            case 3: { static const int K[] = {P_BTAS, P_BTAS, P_FAA64, P_SWAP}; k = K[g.below(4)]; break; }
            case 4: k = 1 + (int)g.below(8); if (k == P_CAS128) k = P_CAS32; break;
            default: { static const int K[] = {P_CAS128, P_CAS128, P_CAS128, P_READ, P_READ1, P_CAS64}; k = K[g.below(6)]; break; }
        }
        a = val(); b = val();
        if (k == P_FAA32) a = (int)a;
        if (k == P_CAS64 && g.below(2)) a = init[l];
        if (k == P_BTAS) a = theme[l] == 3 ? (i64)g.below(3) * 31 + (g.below(4) == 0) : (i64)g.below(64);
        if (k == P_CAS128) { a = ((i64)g.below(3) << 32) | (i64)g.below(3); b = ((i64)g.below(4) << 32) | (i64)g.below(4); if (g.below(2)) a = ((init[l] & 0x7fffffff) << 32); }
        s.ops.push_back({(int)g.below(n), (l << 8) | k, a, b});
    }
    s.setdef("p", 1 + (i64)g.below(6));
    s.setdef("fair", 200000);
}
RegScenario r1({"prims", gen, body, check});
}
