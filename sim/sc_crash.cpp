// Wait-free and lock-free objects whose threads may stop for ever at any step.
// Threads 0..n-1 are started by the library and become crashable inside their operations; the main
// program keeps id n for itself, works on after all others ended or stopped, and empties the object.
#include "sc.h"
namespace {
struct St { Ad *ad; HBar bar; int n, running, drained, mainops, over, sated; u64 solo_from; } W;

void run_ops(int pid, void *ts) {
    const Spec &s = *R->spec;
    if (s.get("starve")) {                       // one thread that is always too late, the others busy until it is through
        bool v = pid == (int)s.get("starved"), coll = is_queue(W.ad->type) || is_stack(W.ad->type);
        if (v) sim_starve_me((u64)s.get("starve"));
        for (int k = 0; v ? k < (int)s.get("starved_ops") : k < 1000 && !W.sated; k++) {
            int kind = coll && (k + pid) % 2 ? L_REM : 1;
            int h = op_begin(pid, kind, 1000000 + pid * 10000 + k, 0);
            long x = ad_op(W.ad, ts, kind, 1000000 + pid * 10000 + k, 0, pid);
            op_end(h, x);
        }
        if (v) W.sated = 1;
        return;
    }
    for (auto &o : s.ops) {
        if (o.pid != pid) continue;
        int h = op_begin(pid, o.kind, o.a, o.b);
        long v = ad_op(W.ad, ts, o.kind, o.a, o.b, pid);
        op_end(h, v);
    }
}
void *worker(void *arg) {
    int pid = (int)(long)arg;
    void *ts = ad_ts(W.ad, pid);
    if (R->get("bar", 1)) hbar_wait(W.bar);
    if (sim_tid() != 0) sim_set_crashable(true);
    run_ops(pid, ts);
    sim_set_crashable(false);
    W.running--;
    return 0;
}
void *raw_worker(void *arg) { return worker(arg); }
void body(Run &r) {
    int n = (int)r.get("n", 2), o = (int)r.get("obj");
    W = St(); W.n = W.running = n;
    apply_machine(r, n);
    W.ad = ad_new(o, n + 1, (int)r.get("p1", 1), (int)r.get("p2", 1), 0);
    void *ts = ad_ts(W.ad, n);
    if (r.get("opbound")) sim_solo((u64)r.get("opbound"));
    if (r.get("turnbound")) sim_set_turn_bound((u64)r.get("turnbound"));
    if (r.get("lib")) {                          // threads of the library; the main program runs as the last of them
        W.bar.n = n;
        sim_open_gate();
        if (r.get("progbound")) sim_set_prog_bound((u64)r.get("progbound"));
        lb_start((unsigned)n, worker, 1);
    } else {
        W.bar.n = n;
        for (int i = 0; i < n; i++) sim_spawn(raw_worker, (void *)(long)i, false);
        sim_open_gate();
        if (r.get("progbound")) sim_set_prog_bound((u64)r.get("progbound"));
    }
    // the main program's own operations, concurrent with the others
    run_ops(n, ts);
    sim_wait_all();
    sim_set_prog_bound(0);
    W.over = 1;
    // every other thread has ended or stopped for ever: the object must still work
    bool coll = is_queue(o) || is_stack(o);
    for (auto &op : R->spec->ops) {
        if (op.pid != n + 1) continue;
        int h = op_begin(n, op.kind, op.a, op.b);
        long v = ad_op(W.ad, ts, op.kind, op.a, op.b, n);
        op_end(h, v);
    }
    if (coll) for (size_t i = 0; i < R->spec->ops.size() + 3; i++) {
        int h = op_begin(n, L_REM, 0, 0);
        long v = ad_op(W.ad, ts, L_REM, 0, 0, n);
        op_end(h, v);
        if (v == EMPTYV) { W.drained = 1; break; }
    }
    W.mainops = 1;
}
void check(Run &r) {
    int o = (int)r.get("obj");
    if (r.exited) { run_fail(r, "exit", "%s: the program ended with status %d although nothing failed: %s", obj_names[o], r.exit_code, r.outtext.c_str()); return; }
    if (!W.mainops) { run_fail(r, "hang", "%s: the surviving thread never completed its operations", obj_names[o]); return; }
    u64 pend = 0; for (auto &x : r.ops) pend += !x.done;
    r.probes["pending_at_end"] += pend;
    if (r.get("turnbound")) { r.probes["max_loop_turns"] = r.maxturns; r.probes["max_loop_turns_permille_of_bound"] = r.maxturns * 1000 / (u64)r.get("turnbound"); }
    if (r.get("starve")) { r.probes["starved_runs"]++; return; }            // too long for a search; the other runs decide linearizability
    if (is_queue(o) || is_stack(o)) {
        if (!W.drained) { run_fail(r, "not-linearizable", "%s: emptying the object yields more values than were inserted", obj_names[o]); return; }
        check_coll(r, o, history(r, L_INS, L_FIND), true);
    } else {
        std::vector<ChainOp> h; for (auto &x : r.ops) h.push_back({x.pid, x.a, x.ret, x.inv, x.res, x.done});
        if (r.get("p1") == 3) check_small(r, obj_names[o], h);
        else check_chain_free(r, obj_names[o], o == O_SIM ? 0 : 12345, h);
    }
}
void gen(Spec &s, Rng &g) {
    static const std::vector<std::vector<int>> SETS = {
        {O_SIM, O_SIM, O_LFU},                               // 0 universal
        {O_MSQ, O_LCRQ, O_SIMQ, O_SIMQ},                     // 1 queues
        {O_LFS, O_SIMS, O_SIMS},                             // 2 stacks
        {O_SIM, O_SIMQ, O_SIMS},                             // 3 wait-free
        {O_MSQ, O_LFS, O_LFU, O_LCRQ},                       // 4 lock-free
        {O_SIM, O_LFU, O_MSQ, O_LCRQ, O_SIMQ, O_LFS, O_SIMS} // 5 all
    };
    int obj = (int)s.get("obj", -1);
    if (obj < 0) { obj = g.pick(SETS[(size_t)s.get("cset", 5)]); s.set("obj", obj); }
    static const int NT[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 8};
    int n = NT[g.below(10)];
    int shape = (int)g.below(10);
    if (uses_sim(obj) && shape == 0) { static const int BN[] = {12, 62, 63, 64, 65, 70}; n = BN[g.below(6)]; }
    if (s.cfg.count("n")) n = (int)s.get("n");
    s.set("n", n);
    gen_machine(s, g, n);
    gen_object(s, g, obj, n, 1);
    s.set("bar", g.below(4) != 0);
    s.set("lib", g.below(2));
    s.setdef("crashes", (i64)g.below((u64)n + 1));
    static const i64 CD[] = {10, 30, 60, 120, 300, 800};
    s.setdef("crash_den", CD[g.below(6)]);
    int maxops = n <= 3 ? 6 : n <= 5 ? 4 : n <= 8 ? 3 : 1;
    if (shape == 1 && n <= 8) { maxops = 40; s.set("long", 1); }
    bool wf = s.get("wf");                                   // wait-freedom: one victim among busy threads
    if (wf && n <= 8) maxops = 30;
    bool coll = is_queue(obj) || is_stack(obj);
    if (coll) gen_coll_ops(s, g, obj, n + 2, maxops); else gen_chain_ops(s, g, n + 2, maxops);
    if (obj == O_LCRQ) { i64 d = 3 + n; for (auto &o : s.ops) d += o.kind == L_REM; s.setdef("fair", 2000000 + 1500000 * d); }
    s.setdef("fair", 400000 + 3000 * (i64)s.ops.size() * (n > 16 ? 4 : 1));
    // bounds, in steps: see DESIGN.md
    if (wf && uses_sim(obj)) {
        s.setdef("opbound", 4000 + 700 * (i64)n);
        s.setdef("turnbound", 400 * s.get("p2") + 4000 + 300 * (i64)n);
        if (n <= 4 && g.below(6) == 0) {
            s.set("lib", 0); s.set("crashes", 0); s.ops.clear();
            s.set("starve", 150 * (i64)n + (i64)g.below(300)); s.set("starved", (i64)g.below((u64)n + 1)); s.set("starved_ops", 20 + (i64)g.below(30));
            s.set("chaos", 200000); s.set("fair", 4000000);
        }
    }
    if (s.get("lf")) {
        i64 b = obj == O_LCRQ ? 450000 * (i64)(n + 1) + 20000 : 4000 + 2000 * (i64)(n + 1);
        s.setdef("progbound", b);
    }
}
RegScenario r1({"crash", gen, body, check});
}
