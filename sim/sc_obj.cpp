// One object used by threads (and fibers) that the library itself starts.
#include "sc.h"
namespace {
struct St { Ad *ad; HBar bar; int n, left; int drained; StatTrack st; bool joined; long c0, c1; int round, rounds; void *ts[256]; int sated; } W;

void run_ops(int pid, void *ts) {
    const Spec &s = *R->spec;
    int k = 0, cnt = 0;
    if (s.get("starve")) {                       // one thread that is late at most of its atomic instructions, the others busy until it is through
        bool v = pid == (int)s.get("starved"); int coll = is_queue(W.ad->type) || is_stack(W.ad->type), roles = (int)s.get("roles");
        Rng g(mix2((u64)s.get("busy_seed"), (u64)pid));
        if (v) { if (s.get("aba")) sim_hold_me(); else sim_starve_me((u64)s.get("starve")); }
        for (k = 0; v ? k < (int)s.get("starved_ops") : k < (int)s.get("busy_ops") && !W.sated; k++) {
            int kind = !coll ? L_INS : roles == 0 ? ((k + pid) % 2 ? L_REM : L_INS) : roles == 1 ? (g.below(2) ? L_REM : L_INS) : roles == 2 ? (pid % 2 && g.below(8) ? L_REM : L_INS) : (v || g.below(4) == 0 ? L_INS : L_REM);
            i64 a = kind == L_INS ? 1000000 + pid * 1000000 + k : 0;
            int h = op_begin(pid, kind, a, 0);
            long x = ad_op(W.ad, ts, kind, a, 0, pid);
            op_end(h, x);
        }
        if (v) W.sated = 1;
        return;
    }
    if (s.get("mara")) {                         // very many operations: counters that wrap, storage that runs out
        int M = (int)s.get("mara"), t = W.ad->type, roles = (int)s.get("roles"), nk = 3; bool coll = is_queue(t) || is_stack(t);
        Rng g(mix2((u64)s.get("busy_seed"), (u64)pid));
        for (k = 0; k < M; k++) {
            int kind = L_INS; i64 a = ((i64)pid << 34) + k + 1;
            if (coll) kind = roles == 0 ? (k % 2 ? L_REM : L_INS) : roles == 1 ? (g.below(2) ? L_REM : L_INS) : roles == 2 ? ((k + pid) % 2 ? L_INS : L_REM) : (k % 8 < 4 ? L_INS : L_REM);
            else if (is_hash(t)) { kind = roles == 0 ? (int[]){L_INS, L_FIND, L_REM, L_FIND}[k % 4] : (int[]){L_INS, L_FIND, L_REM}[g.below(3)]; a = pid + W.n * (i64)(roles == 0 ? 1 : g.below((u64)nk)); }
            if (kind == L_REM && !is_hash(t)) a = 0;
            int h = op_begin(pid, kind, a, is_hash(t) ? k : 0);
            long x = ad_op(W.ad, ts, kind, a, is_hash(t) ? k : 0, pid);
            op_end(h, x);
        }
        return;
    }
    for (auto &o : s.ops) cnt += o.pid == pid;
    for (auto &o : s.ops) {
        if (o.pid != pid || k++ * W.rounds / cnt != W.round) continue;
        SERVED.by[pid] = 0;
        int h = op_begin(pid, o.kind, o.a, o.b);
        long v = ad_op(W.ad, ts, o.kind, o.a, o.b, pid);
        op_end(h, v);
    }
}
void finish(int pid, void *ts) {
    if (--W.left || W.round + 1 < W.rounds) return;
    int o = W.ad->type;
    if (!(is_queue(o) || is_stack(o)) || R->get("nodrain")) return;
    for (size_t n = 0, lim = R->ops.size() + 3; n < lim; n++) {
        int h = op_begin(pid, L_REM, 0, 0);
        long v = ad_op(W.ad, ts, L_REM, 0, 0, pid);
        op_end(h, v);
        if (v == EMPTYV) { W.drained = 1; return; }
    }
}
void *worker(void *arg) {
    int pid = (int)(long)arg;
    if (lb_id() != pid) sim_fail("thread-id", "thread started with id %d is told its id is %d", pid, lb_id());
    W.st.enter();
    void *ts = W.round ? W.ts[pid] : ad_ts(W.ad, pid);      // later rounds of threads go on with the states of the earlier ones
    W.ts[pid] = ts;
    if (R->get("bar", 1)) hbar_wait(W.bar);
    run_ops(pid, ts);
    if (lb_id() != pid) sim_fail("thread-id", "thread started with id %d is told its id is %d at the end", pid, lb_id());
    finish(pid, ts);
    W.st.leave();
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    LATE.clear();
    W = St(); W.round = 0; W.n = W.left = W.bar.n = n;
    apply_machine(r, n);
    W.ad = ad_new((int)r.get("obj"), n + (int)r.get("extra"), (int)r.get("p1", 1), (int)r.get("p2", 1), 0);
    W.st.start();
    if (r.get("order")) sim_set_wait_mark(1000);
    sim_open_gate();
    W.rounds = (int)r.get("rounds", 1);
    SERVED = Served(); SERVED.n = n + (int)r.get("extra"); SERVED.bound = r.get("load") ? 11L * SERVED.n : 0;
    ad_work(W.ad, (int)r.get("work"));
    for (W.round = 0; W.round < W.rounds; W.round++) {
        W.left = n;
        lb_start((unsigned)n, worker, (unsigned)r.get("fib", 1));
        lb_join((unsigned)n);
        if (W.left) break;
    }
    W.joined = true;
    sim_wait_all();
    if (!W.left) W.st.verify(obj_names[W.ad->type]);
    W.c0 = ad_counter(W.ad, 0); W.c1 = ad_counter(W.ad, 1);
}
// A request announced (60 own steps after its call) before another one is issued is applied first; with flat combining each
// other thread may come first twice.
void check_order(Run &r, int o, const Seq *q) {
    std::map<i64, int> pos; i64 v = 12345;
    for (long i = 0; i < q->n; i++) { pos[v] = (int)i; auto l = applied(q, i); v = chain(v, l.first, l.second); }
    std::vector<const OpRec *> at((size_t)q->n);
    for (auto &x : r.ops) at[(size_t)pos[x.ret]] = &x;
    if (o != O_FC) {
        const OpRec *w = 0;
        for (size_t i = at.size(); i--;) {
            if (w && at[i]->inv > w->wait) { run_fail(r, "overtaken", "%s: the request of thread %d was announced when thread %d issued one, yet that one was served first", obj_names[o], w->pid, at[i]->pid); return; }
            if (at[i]->wait != ~0ULL && (!w || at[i]->wait < w->wait)) { w = at[i]; r.probes["waited_announced"]++; }
        }
        return;
    }
    for (size_t i = 0; i < at.size(); i++) {
        if (at[i]->wait == ~0ULL) continue;
        r.probes["waited_announced"]++;
        std::map<int, int> k;
        for (size_t j = i; j--;) {
            if (at[j]->res < at[i]->wait) break;
            if (at[j]->inv > at[i]->wait && ++k[at[j]->pid] > 2) { run_fail(r, "overtaken", "%s: while a request of thread %d was waiting, thread %d issued more than two later ones that were served first", obj_names[o], at[i]->pid, at[j]->pid); return; }
        }
    }
}
void check(Run &r) {
    int o = (int)r.get("obj"), n = (int)r.get("n", 2);
    u64 refused = r.faults[F_ALLOCFAIL] + r.faults[F_THREADFAIL];
    if (refused) {                     // the program must have ended, with a failure status and a message
        if (!r.exited) run_fail(r, "continued", "%s: the program went on although %s was refused", obj_names[o], r.faults[F_ALLOCFAIL] ? "memory" : "a thread");
        else if (!r.exit_code) run_fail(r, "exit-status", "%s: the program ended with success although %s was refused", obj_names[o], r.faults[F_ALLOCFAIL] ? "memory" : "a thread");
        else if (r.outtext.empty()) run_fail(r, "silent-exit", "%s: the program ended without a message when %s was refused", obj_names[o], r.faults[F_ALLOCFAIL] ? "memory" : "a thread");
        return;
    }
    if (r.exited) { run_fail(r, "exit", "%s: the program ended with status %d although nothing failed: %s", obj_names[o], r.exit_code, r.outtext.c_str()); return; }
    if (W.left) { run_fail(r, "join", "joining returned while %d of %d threads had not finished", W.left, n); return; }
    if (is_queue(o) || is_stack(o)) {
        if (!W.drained) { run_fail(r, "not-linearizable", "%s: emptying the object yields more values than were inserted", obj_names[o]); return; }
        check_coll(r, o, history(r, L_INS, L_FIND), W.drained);
    } else if (is_hash(o) && r.get("mara")) {              // every key belongs to one thread
        std::map<i64, bool> in;
        for (auto &x : r.ops) {
            if (x.kind == L_INS) { in[x.a] = true; if (!x.ret) run_fail(r, "not-linearizable", "%s: the insertion of key %lld failed", obj_names[o], (long long)x.a); }
            else if (x.kind == L_REM) in[x.a] = false;
            else if ((x.ret != 0) != in[x.a]) { run_fail(r, "not-linearizable", "%s: the search for key %lld by the only thread that uses it returned %lld", obj_names[o], (long long)x.a, (long long)x.ret); return; }
        }
    } else if (is_hash(o)) check_hash(r, o, history(r, L_INS, L_CAS));
    else {
        std::vector<ChainOp> h; for (auto &x : r.ops) h.push_back({x.pid, x.a, x.ret, x.inv, x.res, x.done});
        if (o <= O_OSCI) { check_chain_log(r, obj_names[o], W.ad->seq, h); if (r.get("order") && r.cls.empty()) check_order(r, o, W.ad->seq); }
        else if (r.get("p1") == 3) check_small(r, obj_names[o], h);
        else check_chain_free(r, obj_names[o], o == O_SIM ? 0 : 12345, h);
    }
    if (ad_debug() && r.cls.empty()) {
        long e = 0, d = 0; for (auto &x : r.ops) (x.kind == L_REM ? d : e)++;
        long c0 = W.c0, c1 = W.c1;
        bool two = o == O_CCQ || o == O_DSMQ || o == O_HQ || o == O_OSCIQ || o == O_FCQ || o == O_SIMQ;
        if (c0 >= 0 && (two ? c0 != e || c1 != d : c0 != e + d)) run_fail(r, "stats", "%s: served-request counters %ld/%ld after %ld inserts and %ld removals", obj_names[o], c0, c1, e, d);
    }
}
void gen(Spec &s, Rng &g) {
    // cfg "set": which objects
    static const std::vector<std::vector<int>> SETS = {
        {O_CC, O_DSM, O_H, O_OYAMA, O_FC},                 // 0 combining
        {O_OSCI},                                          // 1 Osci
        {O_SIM, O_SIM, O_LFU},                             // 2 universal
        {O_CCQ, O_DSMQ, O_HQ, O_OSCIQ, O_FCQ},             // 3 blocking queues
        {O_MSQ, O_LCRQ, O_SIMQ, O_SIMQ, O_LCRQ},           // 4 lock-free queues
        {O_CCS, O_DSMS, O_HS, O_OSCIS, O_FCS},             // 5 blocking stacks
        {O_LFS, O_SIMS, O_SIMS},                           // 6 lock-free stacks
        {O_CLHH, O_DSMH},                                  // 7 hash
        {O_CC, O_DSM, O_H, O_OYAMA, O_FC, O_OSCI, O_SIM, O_LFU, O_CCQ, O_DSMQ, O_HQ, O_OSCIQ, O_FCQ, O_MSQ, O_LCRQ, O_SIMQ, O_CCS, O_DSMS, O_HS, O_OSCIS, O_FCS, O_LFS, O_SIMS, O_CLHH, O_DSMH},   // 8 all
        {O_CC, O_DSM, O_H, O_OYAMA, O_FC, O_OSCI, O_CCQ, O_DSMQ, O_HQ, O_OSCIQ, O_FCQ, O_CCS, O_DSMS, O_HS, O_OSCIS, O_FCS, O_CLHH, O_DSMH},   // 9 blocking
    };
    int obj = (int)s.get("obj", -1);
    if (s.get("order") && obj < 0) { static const int OO[] = {O_CC, O_DSM, O_H, O_FC, O_OSCI}; obj = OO[g.below(5)]; s.set("obj", obj); s.set("p1", 1); }
    if (obj < 0) { obj = g.pick(SETS[(size_t)s.get("set", 8)]); s.set("obj", obj); }
    // threads and fibers
    int fib = 1;
    bool wf = g.below(uses_osci(obj) ? 3 : 8);
    if (uses_osci(obj) ? wf != 0 : wf == 0) fib = 2 + (int)g.below(3);
    if (s.cfg.count("fib")) fib = (int)s.get("fib");
    int th;
    static const int NT[] = {1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8};
    th = NT[g.below(12)];
    int shape = (int)g.below(12);             // 0: many threads, 1: long runs
    if (uses_sim(obj) && shape == 0 && fib == 1) { static const int BN[] = {16, 63, 64, 65, 70, 129}; th = BN[g.below(6)]; }
    // marathon: few threads with up to 66000 operations each
    i64 mara = s.get("mara");
    if (!s.cfg.count("mara") && !s.get("inject") && !s.get("load") && !s.get("order") && !s.cfg.count("n") && g.below(600) == 0) { static const i64 MA[] = {300, 300, 300, 600, 1100, 1100, 4200, 4200, 9000, 66000}; mara = MA[g.below(10)]; s.set("mara", mara); }
    if (mara) { static const int MT[] = {1, 2, 2, 3}; th = MT[g.below(4)]; fib = uses_osci(obj) ? 1 + (int)g.below(2) : 1; shape = 2; }
    int n = th * fib;
    if (fib > 1 && n > 12) { th = 12 / fib; n = th * fib; }
    if (s.cfg.count("n")) n = (int)s.get("n");
    if (s.get("order")) { fib = 1; if (n > 12) th = 12; n = th; if (g.below(4)) { s.set("load", 1); s.set("work", (i64)g.below(4)); } }
    if (s.get("load")) { shape = 1; if (n > 6) { th = 6 / fib; n = th * fib; } if (n == 1) n = th = 2; }
    s.set("n", n); s.set("fib", fib);
    gen_machine(s, g, n);
    gen_object(s, g, obj, n, fib);
    if (s.get("order")) s.set("tso_max", g.below(2) ? 20 : 200);   // a request counts as announced once its stores have reached memory
    s.set("bar", g.below(4) != 0);
    int maxops = n <= 2 ? 8 : n <= 4 ? 6 : n <= 6 ? 4 : n <= 12 ? 2 : 1;
    if (shape == 1 && n <= 8) { maxops = 60; s.set("long", 1); s.set("stall_len", 1 + (i64)g.below(8)); }
    if (s.get("load")) { maxops = 20 + (int)g.below(130); s.set("work", (i64)g.below(4)); s.set("chaos", 30000); }
    else if (obj <= O_OSCI) s.setdef("work", g.below(6) ? 0 : 1 + (i64)g.below(3));
    static const i64 EX[] = {1, 2, 3, 8, 60, 64};
    s.setdef("extra", n <= 16 && !mara && fib == 1 && !uses_osci(obj) && !s.get("load") && g.below(6) == 0 ? EX[g.below(6)] : 0);
    s.setdef("rounds", n <= 12 && !mara && (is_chain(obj) || obj == O_MSQ || obj == O_LCRQ || obj == O_SIMQ || obj == O_LFS || obj == O_SIMS) && !ad_debug() && !s.get("inject") && g.below(5) == 0 ? 2 + (i64)g.below(2) : 1);
    if (is_chain(obj)) gen_chain_ops(s, g, n, maxops);
    else if (is_hash(obj)) gen_hash_ops(s, g, n, std::min(maxops, 24));
    else gen_coll_ops(s, g, obj, n, maxops);
    // LCRQ: a dequeuer may wait 200000 iterations for a cell that no enqueuer will fill
    if (obj == O_LCRQ) { i64 d = 3 + n; for (auto &o : s.ops) d += o.kind == L_REM; s.setdef("fair", 2000000 + 1500000 * d); }
    if (s.get("inject")) {                                 // refused resources
        i64 k = (i64)g.below(8);
        if (k < 5) s.set("alloc_fail_at", 1 + (i64)g.below(g.below(3) ? 8 + 6 * (u64)n : 200));
        else if (k < 7) s.set("thread_fail_at", 1 + (i64)g.below((u64)std::max(1, th)));
        else s.set("aff_fail", 1);
    }
    if (mara) {
        s.ops.clear(); s.set("work", 0); s.set("dup", 0); s.set("bar", 1); s.set("roles", (i64)g.below(4)); s.set("busy_seed", (i64)g.below(1u << 30));
        if (s.get("p1") == 3 && is_chain(obj) && obj > O_OSCI) s.set("p1", 0);
        s.set("hold", 0); s.set("stall", 0); s.set("opb_den", 0); s.set("rmw_den", g.below(3) ? 0 : 200);
        static const i64 MP[] = {10, 50, 300, 3000}; s.set("p", MP[g.below(4)]); s.set("strat", g.below(4) ? 0 : 1); s.set("quantum", 1 + (i64)g.below(40));
        s.set("chaos", 300 * mara * n + 30000); s.set("fair", 600 * mara * n + 6000000 + (obj == O_LCRQ ? 200000000 : 0));
    } else if (n >= 2 && n <= 5 && fib == 1 && !s.get("inject") && !s.get("load") && !s.get("order") && !s.get("extra") && s.get("rounds") == 1 && !s.get("dup") && (is_queue(obj) || is_stack(obj) || ((obj == O_SIM || obj == O_LFU) && s.get("p1") != 3)) && g.below(12) == 0) {
        s.ops.clear(); s.set("work", 0); s.set("bar", 1);
        static const i64 ST[] = {20, 60, 150, 300, 600};
        s.set("starve", ST[g.below(5)]); s.set("starved", (i64)g.below((u64)n)); s.set("starved_ops", 4 + (i64)g.below(20)); s.set("busy_ops", 30 + (i64)g.below(150)); s.set("roles", (i64)g.below(4)); s.set("busy_seed", (i64)g.below(1u << 30));
        s.set("chaos", 100000); s.set("fair", obj == O_LCRQ ? 200000000 : 6000000);
        if (s.cfg.count("aba") ? s.get("aba") : (obj == O_SIM || obj == O_LFU || obj == O_MSQ || obj == O_LCRQ || obj == O_SIMQ || obj == O_LFS || obj == O_SIMS) && g.below(8) == 0) {       // held until the old value is back: a sequence number that wraps
            static const i64 BO[] = {100, 100, 300, 300, 300, 300, 600, 1100}; i64 b = n > 2 || g.below(400) ? BO[g.below(8)] : 66000;
            static const i64 HD[] = {5, 30, 100, 300};
            s.set("aba", 1); s.set("busy_ops", b); s.set("stall", 0); s.set("rmw_den", 0); s.set("opb_den", 0); s.set("strat", 0); s.set("p", 50);
            s.set("hold", HD[g.below(4)]); s.set("hold_max", 400 * b * n); s.set("starved_ops", 1 + (i64)g.below(8));
            s.set("chaos", 400 * b * n + 30000); s.set("fair", 600 * b * n + (obj == O_LCRQ ? 200000000 : 6000000));
        }
    }
    s.setdef("fair", 400000 + 3000 * (i64)s.ops.size() * (n > 16 ? 4 : 1));
}
RegScenario r1({"obj", gen, body, check});
}
