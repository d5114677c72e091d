// The barrier of the library: rounds, re-setting, n = 1, visibility.
#include "sc.h"
namespace {
struct St { void *bar; int n, left; long *slot; long *ph; int over[4]; } W;
void *worker(void *arg) {
    int pid = (int)(long)arg;
    const Spec &s = *R->spec;
    int phase = 0, nph = (int)s.get("phases", 1);
    for (; phase < nph; phase++) {
        int m = (int)s.get(fmt("m%d", phase).c_str(), W.n), rounds = (int)s.get(fmt("r%d", phase).c_str(), 3);
        if (pid < m) for (int k = 1; k <= rounds; k++) {
            for (auto &o : s.ops) if (o.pid == pid && (o.a % rounds) + 1 == k) sim_point_here();
            h_store(W.slot + pid * 8, phase * 1000000L + k);
            int h = op_begin(pid, 1, phase, k);
            lb_bar_wait(W.bar);
            op_end(h, 0);
            for (int q = 0; q < m; q++) {
                long v = h_load(W.slot + q * 8);
                if (v < phase * 1000000L + k) sim_fail("barrier", "thread %d returned from wait %d of the barrier for %d although thread %d has not called its wait %d (its word reads %ld)", pid, k, m, q, k, v);
                if (v > phase * 1000000L + k + 1) sim_fail("barrier", "thread %d is in round %d although thread %d has not left round %d of the barrier for %d", q, (int)(v % 1000000), pid, k, m);
            }
        }
        // between phases the harness, not the library, makes the threads meet; thread 0 sets the barrier again
        // the participants leave; the last one out waits for them, and then the barrier is its own: it sets it again or frees it
        bool lv = s.get(fmt("lv%d", phase).c_str());
        if (lv && pid < m) {
            h_store(W.slot + pid * 8 + 1, phase + 1);
            for (auto &o : s.ops) if (o.pid == pid && o.a % 3 == 0) sim_point_here();
            int h = op_begin(pid, 2, phase, 0);
            if (pid) lb_bar_leave(W.bar); else lb_bar_last(W.bar);
            op_end(h, 0);
            if (!pid) {
                for (int q = 0; q < m; q++) if (h_load(W.slot + q * 8 + 1) < phase + 1) sim_fail("barrier", "the last to leave the barrier returned although thread %d of %d has not left it", q, m);
                sim_probe("last_leaves");
                if (phase + 1 == nph) { void *b = W.bar; W.bar = nullptr; lb_bar_free(b); }
                else { lb_bar_set(W.bar, (unsigned)s.get(fmt("m%d", phase + 1).c_str(), W.n)); sim_flush_own(); h_store(W.ph, phase + 1); sim_flush_own(); }
            }
        }
        if (lv && phase + 1 < nph) { while (h_load(W.ph) < phase + 1) { sim_yield(); if (W.n > 1) lb_fib_yield(); } }
        else if (phase + 1 < nph) {
            W.over[phase]++;
            while (W.over[phase] < W.n) { sim_yield(); if (W.n > 1) lb_fib_yield(); }
            if (pid == 0) { sim_flush_own(); lb_bar_set(W.bar, (unsigned)s.get(fmt("m%d", phase + 1).c_str(), W.n)); sim_flush_own(); h_store(W.ph, phase + 1); sim_flush_own(); }
            while (h_load(W.ph) < phase + 1) { sim_yield(); if (W.n > 1) lb_fib_yield(); }
        }
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    W = St(); W.n = W.left = n;
    apply_machine(r, n);
    W.bar = lb_bar_new((unsigned)r.get("m0", n));
    W.slot = (long *)sim_calloc(sizeof(long) * 8 * (size_t)(n + 1)); W.ph = W.slot + 8 * n;
    sim_open_gate();
    if (r.get("lib", 1)) { lb_start((unsigned)n, worker, (unsigned)r.get("fib", 1)); lb_join((unsigned)n); }
    else { for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false); worker(0); }
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "barrier: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.left) run_fail(r, "hang", "barrier: %d threads never finished", W.left);
}
void gen(Spec &s, Rng &g) {
    static const int NT[] = {1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 16};
    int n = NT[g.below(11)], fib = 1; bool lib = g.below(2);
    if (lib && g.below(3) == 0) { fib = 2 + (int)g.below(2); int th = std::max(1, n / fib); n = th * fib; }
    if (s.cfg.count("n")) n = (int)s.get("n");
    s.set("n", n); s.set("fib", fib); s.set("lib", lib);
    gen_machine(s, g, n);
    int ph = 1 + (int)g.below(3); s.set("phases", ph);
    for (int i = 0; i < ph; i++) { s.set(fmt("m%d", i).c_str(), i == 0 || g.below(2) ? n : 1 + (i64)g.below(n)); s.set(fmt("lv%d", i).c_str(), g.below(2)); s.set(fmt("r%d", i).c_str(), 1 + (i64)g.below(g.below(6) == 0 ? 30 : 6)); }
    if (s.cfg.count("mara") || g.below(400) == 0) {          // very many rounds of a small barrier
        static const i64 MA[] = {300, 300, 700, 1100, 4200, 66000};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(6)]);
        if (n > 3) { n = fib = 1 + (int)g.below(3); if (!lib) fib = 1; if (g.below(2)) fib = 1; s.set("n", n); s.set("fib", fib); gen_machine(s, g, n); }
        for (int i = 0; i < ph; i++) s.set(fmt("m%d", i).c_str(), i == 0 || g.below(2) ? n : 1 + (i64)g.below((u64)n));
        s.set(fmt("r%d", (int)g.below((u64)ph)).c_str(), s.get("mara"));
        s.set("stall", 0); s.set("hold", 0); s.set("rmw_den", g.below(2) ? 0 : 50); s.set("opb_den", 0);
        static const i64 MP[] = {10, 50, 300, 3000}; s.set("p", MP[g.below(4)]); s.set("strat", g.below(4) ? 0 : 1);
        s.set("chaos", 100 * s.get("mara") * n + 10000); s.set("fair", 400000 + 20000 * n + 1000 * s.get("mara") * n);
    }
    for (int p = 0; p < n; p++) for (int k = (int)g.below(6); k > 0; k--) s.ops.push_back({p, 1, (i64)g.below(100), 0});
    s.setdef("fair", 400000 + 20000 * n);
}
RegScenario r1({"barrier", gen, body, check});
}
