// The memory pool: distinct objects, reuse, rollback, give everything back; refused memory.
#include "sc.h"
namespace {
struct St { int left; } W;
void *worker(void *arg) {
    int pid = (int)(long)arg; const Spec &s = *R->spec;
    u64 size = (u64)s.get(fmt("size%d", pid).c_str(), 16), real = std::max<u64>(size, sizeof(void *));
    bool rec = s.variant != "norec";
    int rounds = (int)s.get("rounds", 1);
    for (int k = 0; k < rounds; k++) {
        int rc = 99;
        u64 lb0 = sim_live_bytes(), blocks0 = sim_live_blocks();
        void *p = lb_pool_new((unsigned)size, &rc);
        u64 own = sim_live_blocks() - blocks0 > 1 ? 0 : 0; (void)own; (void)lb0;
        const u64 MAXO = 4096ULL * 8192;
        if (rc != 0) {
            if (size <= MAXO / 2) sim_fail("pool", "a pool for objects of %llu bytes is refused (%d)", (unsigned long long)size, rc);
            W.left--; return 0;
        }
        if (size > MAXO) sim_fail("pool", "a pool accepts objects of %llu bytes, larger than a block", (unsigned long long)size);
        u64 base = sim_live_bytes();                        // includes the first block and the pool structure
        struct O { char *p; bool fresh; };
        std::vector<O> live; std::set<char *> addr, rl; std::vector<char *> fresh_order, expect;   // expect: objects a rollback made available
        u64 sum = 0;
        auto overlap = [&](char *q) { auto it = addr.lower_bound(q); if (it != addr.end() && *it < q + real) return true; return it != addr.begin() && *--it + real > q; };
        for (auto &op : s.ops) {
            if (op.pid != pid) continue;
            int n = op.b >= 1000 ? (int)op.b : 1 + (int)(op.b % 40);
            if (op.kind == 1) for (int i = 0; i < n && sum < (600ULL << 20); i++) {
                u64 before = sim_live_bytes(); bool hadrl = rec && !rl.empty();
                int h = op_begin(pid, 1, (i64)size, 0);
                char *q = (char *)lb_pool_alloc(p);
                op_end(h, 0);
                if (!q) sim_fail("pool", "allocation of a %llu-byte object returned no object", (unsigned long long)size);
                if (!sim_is_live(q, real)) sim_fail("pool", "the pool handed out an object of %llu bytes that is not inside memory it owns", (unsigned long long)size);
                if (overlap(q)) sim_fail("pool", "the pool handed out an object of %llu bytes that overlaps one in use", (unsigned long long)size);
                if (hadrl) {
                    auto it = rl.find(q);
                    if (it == rl.end()) sim_fail("pool", "a recycled object of %llu bytes is available but the pool took another one", (unsigned long long)size);
                    if (sim_live_bytes() != before && s.get("threads", 1) == 1) sim_fail("pool", "the pool took new memory although a recycled object was available");
                    rl.erase(it);
                    live.push_back({q, false}); fresh_order.clear();
                } else {
                    if (!expect.empty()) {
                        auto it = std::find(expect.begin(), expect.end(), q);
                        if (it == expect.end()) sim_fail("pool", "after a rollback the pool hands out an object other than the ones rolled back (object size %llu)", (unsigned long long)size);
                        expect.erase(it);
                    }
                    live.push_back({q, true}); fresh_order.push_back(q); sum += real;
                }
                addr.insert(q);
                h_store((long *)q, (long)(size_t)q);
                if (real >= 16) h_store((long *)(((size_t)q + real - 8) & ~7UL), (long)(size_t)q);
            }
            else if (op.kind == 2) for (int i = 0; i < n && !live.empty(); i++) {
                size_t j = (size_t)(op.a + i * 7) % live.size(); char *q = live[j].p;
                if (h_load((long *)q) != (long)(size_t)q) sim_fail("pool", "the content of an object in use changed");
                int h = op_begin(pid, 2, 0, 0); lb_pool_recycle(p, q); op_end(h, 0);
                addr.erase(q);
                if (live.size() > 5000) { live[j] = live.back(); live.pop_back(); } else live.erase(live.begin() + (long)j);
                if (rec) rl.insert(q);
                fresh_order.clear();                          // a rollback now would cover recycled objects
            }
            else if (op.kind == 3) {                          // the last k allocations, none of them recycled or reused since
                size_t k = std::min<size_t>((size_t)(op.a % 60), fresh_order.size());
                if (!k || !rl.empty()) continue;
                int h = op_begin(pid, 3, (i64)k, 0); lb_pool_rollback(p, (unsigned)k); op_end(h, 0);
                for (size_t i = 0; i < k; i++) {
                    char *q = fresh_order.back(); fresh_order.pop_back();
                    expect.push_back(q);
                    for (size_t j = live.size(); j-- > 0;) if (live[j].p == q) { addr.erase(q); live.erase(live.begin() + (long)j); break; }
                    sum -= real;
                }
            }
        }
        for (auto &o : live) if (h_load((long *)o.p) != (long)(size_t)o.p) sim_fail("pool", "the content of an object in use changed");
        if (sim_live_bytes() > base) sim_probe("pool_many_blocks");
        int h = op_begin(pid, 4, 0, 0); lb_pool_destroy(p); op_end(h, 0);
        if (s.get("threads", 1) == 1) {
            lb_pool_free(p);
            u64 now = sim_live_bytes();
            if (now > lb0) sim_fail("pool", "destroying the pool left %llu bytes unreturned (object size %llu)", (unsigned long long)(now - lb0), (unsigned long long)size);
        }
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("threads", 1);
    W = St(); W.left = n;
    sim_open_gate();
    for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false);
    worker(0);
    sim_wait_all();
}
void check(Run &r) {
    bool f = r.faults[F_ALLOCFAIL] > 0;
    if (r.exited) { if (!f || r.exit_code == 0 || r.outtext.empty()) run_fail(r, "exit", "pool: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (f) { run_fail(r, "continued", "pool: the program went on after memory was refused"); return; }
    if (W.left) run_fail(r, "hang", "pool: %d threads never finished", W.left);
}
void gen(Spec &s, Rng &g) {
    int n = g.below(3) ? 1 : 2 + (int)g.below(2); s.set("threads", n); s.set("n", n);
    s.set("ncpus", 8); s.set("nodes", 2);
    s.set("rounds", 1 + (i64)g.below(2));
    s.set("opb_den", 8);
    for (int t = 0; t < n; t++) {
        i64 z; const i64 B = 4096LL * 8192;
        switch (g.below(8)) {
            case 0: z = (i64)g.below(9); if (z == 0) z = 1; break;
            case 1: z = 8 * (1 + (i64)g.below(16)); break;
            case 2: z = 64 * (1 + (i64)g.below(100)); break;
            case 3: z = B / (1 + (i64)g.below(5)) - 64; break;
            case 4: z = B / (2 + (i64)g.below(40)) & ~7LL; break;
            case 5: z = B / (2 + (i64)g.below(40)) - (i64)g.below(64); break;
            case 6: z = g.below(3) ? B / 8 + 8 * (i64)g.below(5) : B + (i64)g.below(3) - 1 + (g.below(2) ? 0 : -48); break;
            default: z = B / 20; break;
        }
        s.set(fmt("size%d", t).c_str(), z);
        int style = (int)g.below(3);
        for (int i = 2 + (int)g.below(14); i > 0; i--) { int q = (int)g.below(6); int kind = style == 0 ? (q < 3 ? 1 : 2) : style == 1 ? (q < 3 ? 1 : 3) : q < 3 ? 1 : q < 5 ? 3 : 2; s.ops.push_back({t, kind, (i64)g.below(1000), (i64)g.below(1000)}); }
    }
    if (s.cfg.count("mara") || (!s.get("failalloc") && g.below(600) == 0)) {      // very many small objects: more than 16-bit counts, more than a block
        static const i64 MA[] = {300, 1100, 4200, 66000, 140000}, SZ[] = {1, 8, 16, 24, 40, 64, 200, 500};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(5)]);
        i64 m = s.get("mara"); n = 1 + (int)g.below(2); s.set("threads", n); s.set("n", n);
        for (int t = 0; t < n; t++) s.set(fmt("size%d", t).c_str(), SZ[g.below(8)]);
        s.ops.clear();
        for (int t = 0; t < n; t++) {
            s.ops.push_back({t, 1, 0, m + (i64)g.below(20)});
            for (int i = (int)g.below(4); i > 0; i--) { s.ops.push_back({t, 3, (i64)g.below(60), 0}); s.ops.push_back({t, 1, 0, (i64)g.below(40)}); }
            if (g.below(2)) { s.ops.push_back({t, 2, (i64)g.below(1000), g.below(2) ? 1000 : m}); s.ops.push_back({t, 1, 0, g.below(2) ? std::min<i64>(m, 3000) : m + 1000}); }
        }
        s.set("stall", 0); s.set("hold", 0); s.set("chaos", 10000); s.set("fair", 2000000 + 800 * m); s.set("opb_den", 0); s.set("rmw_den", 0);
        return;
    }
    if (s.get("failalloc") || g.below(10) == 0) s.set("alloc_fail_at", 1 + (i64)g.below(8));
    s.setdef("fair", 2000000);
}
RegScenario r1({"pool", gen, body, check});
}
