// CLH and MCS locks: mutual exclusion, hand-over, arrival order, visibility.
#include "sc.h"
namespace {
struct Call { int pid, lock, h; u64 call, acq, rel; };
struct St { Ad *ad[3]; int nl; int n, left; int owner[3]; long *cell; HBar bar; std::vector<Call> calls; std::vector<long> cnt; } W;
const u64 DOORWAY = 60;        // own steps inside lock() after which a caller counts as waiting

void *worker(void *arg) {
    int pid = (int)(long)arg;
    void *ts[3];
    for (int i = 0; i < W.nl; i++) ts[i] = ad_ts(W.ad[i], pid);
    if (R->get("bar", 1)) hbar_wait(W.bar);
    i64 mara = R->get("mara"); Rng mg(mix2((u64)R->get("busy_seed"), (u64)pid));
    size_t at = 0;
    for (i64 m = 0;; m++) {
        OpSpec o{pid, 1, 0, 0};
        if (mara) { if (m == mara) break; o.a = (i64)mg.below((u64)W.nl); o.b = (i64)mg.below(1000); }
        else { while (at < R->spec->ops.size() && R->spec->ops[at].pid != pid) at++; if (at == R->spec->ops.size()) break; o = R->spec->ops[at++]; }
        W.cnt[(size_t)(o.a % W.nl)]++;
        int l = (int)(o.a % W.nl), l2 = (int)(o.b % (W.nl + 1));     // l2 > l: nested
        int first = (int)W.calls.size();
        for (int lev = 0; lev < 2; lev++) {
            int k = lev ? l2 : l;
            if (lev && (l2 <= l || l2 >= W.nl)) continue;
            sim_point_here();
            int c = (int)W.calls.size();
            W.calls.push_back({pid, k, -1, sim_event(), ~0ULL, ~0ULL});
            int h = op_begin(pid, 1, k, 0);
            W.calls[c].h = h; W.calls[c].call = sim_event();
            ad_lock(W.ad[k], ts[k], pid);
            op_end(h, 0);
            W.calls[c].acq = sim_event();
            if (W.owner[k] != -1) sim_fail("mutual-exclusion", "%s: thread %d holds the lock although thread %d has not released it", obj_names[W.ad[k]->type], pid, W.owner[k]);
            W.owner[k] = pid;
        }
        long *x = W.cell + l * 8;
        long v = h_load(x); h_store(x, -1);
        for (int i = 0; i < (int)(o.b % 5); i++) sim_point_here();
        if (o.b % 7 == 0) lb_resched();
        long v2 = h_load(x);
        if (v2 != -1) sim_fail("mutual-exclusion", "%s: thread %d finds %ld in the word it wrote inside its critical section", obj_names[W.ad[l]->type], pid, v2);
        h_store(x, v + 1); h_store(x + 1, v + 1);
        for (int c = (int)W.calls.size() - 1; c >= first; c--) {
            Call &q = W.calls[c]; if (q.pid != pid || q.rel != ~0ULL) continue;
            int k = q.lock;
            W.owner[k] = -1; q.rel = sim_event();
            int h = op_begin(pid, 2, k, 0);
            ad_unlock(W.ad[k], ts[k], pid);
            op_end(h, 0);
        }
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    W = St(); W.n = W.left = W.bar.n = n; W.nl = (int)r.get("nl", 1); W.cnt.assign((size_t)W.nl, 0);
    apply_machine(r, n);
    for (int i = 0; i < W.nl; i++) { W.owner[i] = -1; W.ad[i] = ad_new((int)r.get(fmt("l%d", i).c_str(), O_CLH), n, 1, 1, i); }
    W.cell = (long *)sim_calloc(sizeof(long) * 8 * 4);
    sim_set_wait_mark(DOORWAY);
    sim_open_gate();
    lb_start((unsigned)n, worker, (unsigned)r.get("fib", 1));
    lb_join((unsigned)n);
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "locks: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.left) { run_fail(r, "hang", "locks: %d threads never finished", W.left); return; }
    std::vector<long> &cnt = W.cnt;
    for (int i = 0; i < W.nl; i++) if (W.cell[i * 8] != cnt[i] || W.cell[i * 8 + 1] != cnt[i]) { run_fail(r, "mutual-exclusion", "%s: %ld critical sections counted %ld", obj_names[W.ad[i]->type], cnt[i], W.cell[i * 8]); return; }
    // arrival order: a caller that has taken DOORWAY own steps inside the operation is waiting
    const size_t near = r.get("mara") ? 60 : W.calls.size();
    if (r.get("fib", 1) == 1) for (size_t ia = 0; ia < W.calls.size(); ia++) for (size_t ib = ia > near ? ia - near : 0; ib < std::min(W.calls.size(), ia + near); ib++) {
        Call &a = W.calls[ia], &b = W.calls[ib];
        if (a.lock != b.lock || a.pid == b.pid || a.h < 0 || r.ops[a.h].wait == ~0ULL) continue;
        if (b.call > r.ops[a.h].wait && a.acq > r.ops[a.h].wait) r.probes["queued_pairs"]++;
        if (r.ops[a.h].wait < b.call && b.acq < a.acq) { run_fail(r, "overtaken", "%s: thread %d was waiting for the lock when thread %d asked for it, yet %d got it first", obj_names[W.ad[a.lock]->type], a.pid, b.pid, b.pid); return; }
    }
}
void gen(Spec &s, Rng &g) {
    static const int NT[] = {1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12};
    int n = NT[g.below(12)], fib = g.below(5) ? 1 : 2 + (int)g.below(2);
    if (fib > 1) { int th = std::max(1, n / fib); n = th * fib; }
    if (s.cfg.count("n")) n = (int)s.get("n");
    s.set("n", n); s.set("fib", fib);
    gen_machine(s, g, n);
    int nl = g.below(3) ? 1 : 2 + (int)g.below(2); s.set("nl", nl);
    for (int i = 0; i < nl; i++) s.set(fmt("l%d", i).c_str(), g.below(2) ? O_CLH : O_MCS);
    s.set("bar", g.below(3) != 0);
    if (s.cfg.count("mara") || g.below(500) == 0) {
        static const i64 MA[] = {300, 300, 700, 1100, 4200, 66000};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(6)]);
        if (n > 3) { n = 1 + (int)g.below(3); s.set("n", n); s.set("fib", 1); gen_machine(s, g, n); }
        static const i64 MP[] = {10, 50, 300, 3000}; s.set("p", MP[g.below(4)]); s.set("strat", g.below(4) ? 0 : 1); s.set("busy_seed", (i64)g.below(1u << 30));
        s.set("stall", 0); s.set("hold", 0); s.set("opb_den", 0); s.set("rmw_den", g.below(3) ? 0 : 200);
        s.set("chaos", 300 * s.get("mara") * n + 30000); s.set("fair", 400000 + 1000 * s.get("mara") * n);
        return;
    }
    int maxops = n <= 3 ? 12 : n <= 6 ? 6 : 4;
    if (g.below(8) == 0) maxops *= 5;
    for (int p = 0; p < n; p++) { int k = 1 + (int)g.below(maxops); for (int i = 0; i < k; i++) s.ops.push_back({p, 1, (i64)g.below(nl), (i64)g.below(1000)}); }
    s.setdef("fair", 400000 + 6000 * (i64)s.ops.size());
}
RegScenario r1({"locks", gen, body, check});
}
