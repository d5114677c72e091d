// Reclamation: after a concurrent phase each thread in turn inserts and removes alternately on its own; the
// objects documented as reclaiming must not keep touching new memory. (Concurrent history checked as well.)
#include "sc.h"
namespace {
struct St { Ad *ad; HBar bar; int n, left, turn, drained; int tturn, unlimited; u64 grown, d0, d1, found[2], gran; i64 last[16], stride[16]; } W;
// A thread alone inserts until an element lies in memory never written before; where?
i64 fresh_element(int pid, void *ts, i64 &key) {
    for (int i = 0; i < 3000; i++) {
        sim_fresh_first();
        ad_op(W.ad, ts, L_INS, key++, 7, pid);
        if (u64 a = sim_fresh_first()) return (i64)a;
    }
    return 0;
}
// Lookups and removals take no memory: the elements a thread inserts before and after many of them lie next to each other.
void lookups(int pid, void *ts) {
    const Spec &s = *R->spec;
    bool hash = is_hash(W.ad->type);
    int m = (int)s.get("look"), mode = m % 3;               // both, only removals, only lookups
    i64 key = 1000000 + 10000 * pid;
    // every lock of the table has been used by every thread before elements are watched
    if (hash) for (int j = 0; j < 64; j++) ad_op(W.ad, ts, L_FIND, j, 0, pid);
    hbar_wait(W.bar);
    for (int ph = 0; ph < 2; ph++) {
        for (int t = 0; t < W.n; t++) {
            if (t == pid) {
                if (!ph) {
                    i64 a[5];
                    for (int j = 0; j < 3; j++) { fresh_element(pid, ts, key); if (!hash) ad_op(W.ad, ts, L_REM, 0, 0, pid); }    // warm up
                    for (auto &x : a) x = fresh_element(pid, ts, key);
                    i64 d = a[1] - a[0];
                    bool ok = a[0] && d > 0;
                    for (int j = 1; ok && j < 5; j++) ok = a[j] && a[j] - a[j - 1] == d;
                    W.last[pid] = a[4]; W.stride[pid] = ok ? d : 0;
                } else if (i64 d = W.stride[pid]) {
                    i64 b = fresh_element(pid, ts, key), gap = (b - W.last[pid]) / d - 1;
                    bool ok = b != 0;
                    for (i64 c = b, j = 0; ok && j < 3; j++) { i64 e = fresh_element(pid, ts, key); ok = e - c == d; c = e; }
                    R->probes["lookup_phases"]++;
                    if (ok && gap >= m / 5 && gap >= 8 && gap < 10 * m) sim_fail("memory-growth", "%s: after %d lookups and removals by each of %d threads the next element of thread %d lies %ld elements beyond its last one", obj_names[W.ad->type], m, W.n, pid, (long)gap);
                }
                W.tturn = ph * W.n + t + 1;
            } else while (W.tturn <= ph * W.n + t) { lb_fib_yield(); sim_yield(); }
        }
        hbar_wait(W.bar);
        if (ph) break;
        for (int j = 0; j < m; j++) {
            if (!hash) ad_op(W.ad, ts, L_REM, 0, 0, pid);
            else ad_op(W.ad, ts, (mode ? mode == 1 : (j + pid) % 3 == 0) ? L_REM : L_FIND, 1000000 + 10000 * ((pid + j) % W.n) + j % 12, 0, pid);
        }
        hbar_wait(W.bar);
    }
}

void *worker(void *arg) {
    int pid = (int)(long)arg; const Spec &s = *R->spec;
    void *ts = ad_ts(W.ad, pid);
    hbar_wait(W.bar);
    for (auto &o : s.ops) {
        if (o.pid != pid) continue;
        int h = op_begin(pid, o.kind, o.a, o.b);
        long v = ad_op(W.ad, ts, o.kind, o.a, o.b, pid);
        op_end(h, v);
    }
    hbar_wait(W.bar);
    if (pid == 0) W.turn = 0;
    hbar_wait(W.bar);
    if (s.get("look")) { lookups(pid, ts); W.left--; return 0; }
    if (s.get("conc")) {                        // all threads alternate at the same time
        int k = (int)s.get("conc");
        long v;
        if (pid == 0) for (size_t j = 0; j < s.ops.size() + 3; j++) { int h = op_begin(pid, L_REM, 0, 0); v = ad_op(W.ad, ts, L_REM, 0, 0, pid); op_end(h, v); if (v == EMPTYV) { W.drained = 1; break; } }
        hbar_wait(W.bar);
        // Nodes migrate between the threads' stores, but none may be lost: each thread in turn inserts until it writes
        // to memory never used before; together they must find again whatever was in use before.
        for (int ph = 0; ph < 2; ph++) {
            for (int t = 0; t < W.n; t++) {
                if (t == pid) {
                    long c = 0, lim = 40000; u64 d = sim_fresh(), g = 0;
                    while (!(g = sim_fresh() - d) && c < lim) ad_op(W.ad, ts, L_INS, 8000000 + c++, 0, pid);
                    for (long j = 0; j < c; j++) { v = ad_op(W.ad, ts, L_REM, 0, 0, pid); if (v != 8000000 + (is_queue(W.ad->type) ? j : c - 1 - j)) sim_fail("not-linearizable", "%s: thread %d alone inserted %ld elements; removal %ld yields %ld", obj_names[W.ad->type], pid, c, j, v); }
                    if (c >= lim) W.unlimited = 1;
                    W.found[ph] += c; W.gran = W.gran ? std::min(W.gran, g) : g;
                    W.tturn = ph * W.n + t + 1;
                } else while (W.tturn <= ph * W.n + t) { lb_fib_yield(); sim_yield(); }
            }
            hbar_wait(W.bar);
            if (ph) break;
            if (pid == 0) W.d0 = sim_fresh();
            hbar_wait(W.bar);
            for (int j = 0; j < k; j++) {
                ad_op(W.ad, ts, L_INS, 5000000 + pid * 100000 + j, 0, pid);
                v = ad_op(W.ad, ts, L_REM, 0, 0, pid);
                if (v < 5000000) sim_fail("not-linearizable", "%s: thread %d removed %ld although at most as many elements were removed as inserted", obj_names[W.ad->type], pid, v);
            }
            hbar_wait(W.bar);
            if (pid == 0) W.d1 = sim_fresh();
        }
        if (pid == W.n - 1 && s.get("reclaims") && !W.unlimited) {
            u64 took = (W.d1 - W.d0) / W.gran, slack = 40 + 12 * (u64)W.n;     // in nodes
            R->probes["nodes_taken_concurrently"] += took;
            if (W.found[0] + took > W.found[1] + slack)
                sim_fail("memory-growth", "%s: before %d alternating insertions and removals by each of %d threads %llu insertions found memory to reuse; these took %llu new nodes, and afterwards only %llu insertions do", obj_names[W.ad->type], k, W.n, (unsigned long long)W.found[0], (unsigned long long)took, (unsigned long long)W.found[1]);
            u64 x = W.found[0] + took > W.found[1] ? W.found[0] + took - W.found[1] : 0;
            if (x > R->probes["max_nodes_missing"]) R->probes["max_nodes_missing"] = x;
        }
        R->probes["concurrent_alternation"]++;
    }
    int pairs = (int)s.get("pairs", 400), per = 1 + (int)s.get("burst", 0), code = per > 8 ? per : 8;
    for (int t = 0; t < W.n; t++) {
        if (t == pid) {
            if (t == 0) for (size_t k = 0; k < s.ops.size() + 3; k++) {        // empty it first
                int h = op_begin(pid, L_REM, 0, 0); long v = ad_op(W.ad, ts, L_REM, 0, 0, pid); op_end(h, v); if (v == EMPTYV) { W.drained = 1; break; } }
            u64 d0 = 0, b0 = 0, f0 = 0;
            for (int k = 0; k < pairs; k++) {
                if (k == pairs / 3) { f0 = sim_fresh(); d0 = sim_dirty_pages(); b0 = sim_live_bytes(); }
                for (int j = 0; j < per; j++) ad_op(W.ad, ts, L_INS, 1000000 + k * code + j, 0, pid);
                for (int j = 0; j < per; j++) {
                    long v = ad_op(W.ad, ts, L_REM, 0, 0, pid), want = 1000000 + k * code + (is_queue(W.ad->type) ? j : per - 1 - j);
                    if (v != want) sim_fail("not-linearizable", "%s: thread %d alone inserted %ld but removed %ld", obj_names[W.ad->type], pid, want, v);
                }
            }
            u64 grown = (sim_dirty_pages() - d0) + (sim_live_bytes() - b0) / 4096;
            if (s.get("reclaims") && grown > 1) sim_fail("memory-growth", "%s: %d further pairs of insertions and removals by thread %d alone took %llu new pages of memory", obj_names[W.ad->type], pairs - pairs / 3, pid, (unsigned long long)grown);
            if (s.get("mara") && s.get("reclaims")) {
                u64 f = sim_fresh() - f0, &m = R->probes["max_fresh_granules_alone"]; if (f > m) m = f;
                if (f > 12) sim_fail("memory-growth", "%s: thread %d alone, %d further pairs of insertions and removals wrote to %llu bytes never used before", obj_names[W.ad->type], pid, pairs - pairs / 3, (unsigned long long)f * 16);
            }
            W.turn = t + 1;
        } else while (W.turn <= t) { lb_fib_yield(); sim_yield(); }
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    W = St(); W.n = W.left = W.bar.n = n;
    apply_machine(r, n);
    W.ad = ad_new((int)r.get("obj"), n, (int)r.get("p1", 1), (int)r.get("p2", 1), 0);
    if (r.get("conc") || r.get("look") || r.get("mara")) sim_track_fresh();
    sim_open_gate();
    lb_start((unsigned)n, worker, (unsigned)r.get("fib", 1));
    lb_join((unsigned)n);
    sim_wait_all();
}
void check(Run &r) {
    int o = (int)r.get("obj");
    if (r.exited) { run_fail(r, "exit", "%s: the program ended with status %d: %s", obj_names[o], r.exit_code, r.outtext.c_str()); return; }
    if (W.left) { run_fail(r, "hang", "%s: %d threads never finished", obj_names[o], W.left); return; }
    if (is_hash(o)) { check_hash(r, o, history(r, L_INS, L_FIND + 1)); return; }
    if (r.get("look")) { check_coll(r, o, history(r, L_INS, L_FIND), false); return; }
    if (!W.drained) { run_fail(r, "not-linearizable", "%s: emptying the object yields more values than were inserted", obj_names[o]); return; }
    check_coll(r, o, history(r, L_INS, L_FIND), true);
}
void gen(Spec &s, Rng &g) {
    static const int RO[] = {O_CCQ, O_DSMQ, O_HQ, O_OSCIQ, O_FCQ, O_CCS, O_DSMS, O_HS, O_OSCIS, O_FCS, O_SIMS};
    int obj = (int)s.get("obj", -1);
    static const int LO[] = {O_MSQ, O_LFS, O_CLHH, O_DSMH, O_CLHH, O_DSMH};
    bool look = s.get("look", -1) >= 0 ? s.get("look") > 0 : g.below(5) == 0;
    if (obj < 0) { obj = look && g.below(2) ? LO[g.below(6)] : RO[g.below(11)]; s.set("obj", obj); }
    static const int NT[] = {1, 1, 2, 2, 3, 4};
    int n = NT[g.below(6)], fib = 1;
    if (uses_osci(obj) && g.below(2)) { fib = 2; n = 2 * (1 + (int)g.below(2)); }
    s.set("n", n); s.set("fib", fib);
    gen_machine(s, g, n);
    gen_object(s, g, obj, n, fib);
    s.set("reclaims", s.variant != "norec");
    i64 burst = g.below(3) ? 0 : (i64)g.below(4);
    s.set("pairs", 900 / (1 + burst)); s.set("burst", burst);
    if (g.below(2)) { s.set("conc", 1600); s.set("pairs", 30); }
    if (s.cfg.count("mara") || (!look && g.below(40) == 0)) {        // a leak in one of many operations
        static const i64 MA[] = {4200, 4200, 9000, 9000, 9000, 66000};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(6)]);
        if (g.below(3) == 0) { static const i64 BU[] = {60, 300, 1000, 4500, 9000}; burst = BU[g.below(5)] + (i64)g.below(20); s.set("burst", burst); }
        s.set("pairs", std::max<i64>(s.get("mara") / (1 + burst), 6)); s.cfg.erase("conc"); s.set("hold", 0);
    }
    if (look) { s.set("look", 80 + (i64)g.below(100)); s.cfg.erase("conc"); }
    if (is_hash(obj)) gen_hash_ops(s, g, n, 6);
    else gen_coll_ops(s, g, obj, n, 6);
    static const i64 CH[] = {300, 1000, 3000}; s.setdef("chaos", CH[g.below(3)]);
    s.setdef("fair", 6000000 + 1500 * (i64)n * s.get("mara") + 2000 * (i64)n * (2000 + s.get("conc") * 2));
}
RegScenario r1({"bounded", gen, body, check});
}
