// Several objects of the same and of different kinds used by the same threads, operations of one inside the
// critical sections of another, new objects created while others are in use.
#include "sc.h"
namespace {
const int MAXO = 4;
struct St { Ad *ad[MAXO]; void *ts[MAXO][64]; HBar bar; int no, n, left; int drained[MAXO]; bool made[MAXO]; int pid_of[80], deep[80], nested; } W;
long inst_id(int i, i64 kind) { return i * 100 + kind; }
void one(int pid, int i, int kind, i64 a, i64 b) {
    int h = op_begin(pid, (int)inst_id(i, kind), a, b);
    long v = ad_op(W.ad[i], W.ts[i][pid], kind, a, b, pid);
    op_end(h, v);
}
// called by the sequential functions of combining objects, in whichever thread combines
extern "C" void h_nested(long i, long arg) {
    int me = W.pid_of[sim_tid()] - 1;
    if (me < 0 || W.deep[me] || !W.ad[i] || !W.ts[i][me] || ((u64)arg * 0x9e3779b97f4a7c15ULL >> 61) > 3) return;
    int o = W.ad[i]->type, k = ++W.nested;
    W.deep[me] = 1;
    R->probes["nested_in_objects"]++;
    if (is_queue(o) || is_stack(o)) one(me, (int)i, k % 2 ? L_INS : L_REM, k % 2 ? 700000 + k : 0, 0);
    else if (is_hash(o)) one(me, (int)i, k % 3 ? L_FIND : L_INS, k % 4, k);
    else one(me, (int)i, L_INS, 700000 + k, 0);
    W.deep[me] = 0;
}
int users(int i) { return (int)R->spec->get(fmt("n%d", i).c_str(), W.n); }
void make(int i) {
    const Spec &s = *R->spec;
    int o = (int)s.get(fmt("o%d", i).c_str());
    W.ad[i] = ad_new(o, (int)s.get(fmt("n%d", i).c_str(), W.n), (int)s.get(fmt("x%dp1", i).c_str(), 1), (int)s.get(fmt("x%dp2", i).c_str(), 1), i);
    int in = (int)s.get("nest", -1);
    if (in >= 0 && i < in) ad_nest(W.ad[i], in);
    sim_flush_own();             // the object is published to the other threads
    W.made[i] = true;
}
void *worker(void *arg) {
    int pid = (int)(long)arg; const Spec &s = *R->spec;
    W.pid_of[sim_tid()] = pid + 1;
    int late = (int)s.get("late", -1), lk = (int)s.get("lock", -1), held = 0;
    for (int i = 0; i < W.no; i++) if (i != late && pid < users(i)) W.ts[i][pid] = ad_ts(W.ad[i], pid);
    if (s.get("bar", 1)) hbar_wait(W.bar);
    int cnt = 0;
    for (auto &o : s.ops) {
        if (o.pid != pid) continue;
        int i = o.kind / 100, kind = o.kind % 100;
        if (late >= 0 && pid == 0 && cnt == 1 && !W.made[late]) make(late);
        cnt++;
        if (pid >= users(i)) continue;
        if (i == late) {
            if (!W.made[late]) { if (pid != 0) continue; make(late); }
            if (!W.ts[late][pid]) W.ts[late][pid] = ad_ts(W.ad[late], pid);
        }
        if (lk >= 0 && kind >= 50) { ad_lock(W.ad[lk], W.ts[lk][pid], pid); held = 1; kind -= 50; }
        one(pid, i, kind, o.a, o.b);
        if (held) { ad_unlock(W.ad[lk], W.ts[lk][pid], pid); held = 0; }
    }
    if (--W.left) return 0;
    for (int i = 0; i < W.no; i++) {
        int o = W.ad[i] ? W.ad[i]->type : -1;
        if (o < 0 || !(is_queue(o) || is_stack(o)) || !W.ts[i][pid]) { W.drained[i] = 2; continue; }
        for (size_t k = 0; k < s.ops.size() + 3; k++) { one(pid, i, L_REM, 0, 0); if (R->ops.back().ret == EMPTYV) { W.drained[i] = 1; break; } }
    }
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 2);
    W = St(); W.n = W.left = W.bar.n = n; W.no = (int)r.get("no", 2);
    apply_machine(r, n);
    for (int i = 0; i < W.no; i++) if (i != r.get("late", -1)) make(i);
    sim_open_gate();
    lb_start((unsigned)n, worker, (unsigned)r.get("fib", 1));
    lb_join((unsigned)n);
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "several objects: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.left) { run_fail(r, "hang", "several objects: %d threads never finished", W.left); return; }
    for (int i = 0; i < W.no && r.cls.empty(); i++) {
        if (!W.ad[i]) continue;
        int o = W.ad[i]->type;
        std::string nm = fmt("%s (object %d of %d)", obj_names[o], i, W.no);
        if (is_lock(o)) continue;
        if (is_queue(o) || is_stack(o) || is_hash(o)) {
            std::vector<LinOp> h; for (auto &x : r.ops) if (x.kind / 100 == i) h.push_back({x.kind % 100, x.a, x.b, x.ret, x.inv, x.res, x.done});
            if (is_hash(o)) check_hash(r, o, h);
            else { if (!W.drained[i]) { run_fail(r, "not-linearizable", "%s: emptying the object yields more values than were inserted", nm.c_str()); return; } check_coll(r, o, h, W.drained[i] == 1); }
        } else {
            std::vector<ChainOp> h; for (auto &x : r.ops) if (x.kind / 100 == i) h.push_back({x.pid, x.a, x.ret, x.inv, x.res, x.done});
            if (o <= O_OSCI) check_chain_log(r, nm.c_str(), W.ad[i]->seq, h); else check_chain_free(r, nm.c_str(), o == O_SIM ? 0 : 12345, h);
        }
    }
}
void gen(Spec &s, Rng &g) {
    static const int NT[] = {1, 2, 2, 3, 3, 4, 5};
    int n = NT[g.below(7)], fib = 1;
    if (g.below(6) == 0) { fib = 2; n = 2 * (1 + (int)g.below(3)); }
    s.set("n", n); s.set("fib", fib);
    gen_machine(s, g, n);
    int no = 2 + (int)g.below(2), late = g.below(3) ? -1 : no - 1;
    int lk = fib == 1 && g.below(2) ? no : -1;
    int same = g.below(3) == 0;
    int t0 = (int)g.below(O_CLH);
    for (int i = 0; i < no; i++) {
        int o = same ? t0 : g.below(4) == 0 && t0 >= O_CCQ ? (is_queue(t0) ? O_CCQ + (int)g.below(8) : O_CCS + (int)g.below(7)) : (int)g.below(O_CLH);
        s.set(fmt("o%d", i).c_str(), o);
        gen_object(s, g, o, n, fib, fmt("x%d", i).c_str());
        i64 nn = n; if (!uses_osci(o) && g.below(3) == 0) nn = n + (i64)g.below(4);
        if (uses_sim(o) && g.below(6) == 0) nn = 60 + (i64)g.below(12);
        if (i != late && !uses_osci(o) && fib == 1 && g.below(4) == 0) nn = 1 + (i64)g.below((u64)n);      // some threads only use it
        s.set(fmt("n%d", i).c_str(), nn);
    }
    if (lk >= 0) { s.set(fmt("o%d", lk).c_str(), g.below(2) ? O_CLH : O_MCS); no++; s.set("lock", lk); }
    if (fib == 1 && g.below(3) == 0) s.set("nest", 1 + (i64)g.below((u64)no - 1 - (lk >= 0)));
    s.set("no", no); if (late >= 0) s.set("late", late);
    s.set("bar", g.below(3) != 0);
    Values v(g, O_LCRQ);
    int per = n <= 2 ? 8 : n <= 4 ? 6 : 4;
    int d = 0;
    for (int p = 0; p < n; p++) for (int k = 1 + (int)g.below(per); k > 0; k--) {
        int i = (int)g.below(no - (lk >= 0)), o = (int)s.get(fmt("o%d", i).c_str()), kind = L_INS; i64 a = 0, b = 0;
        if (is_queue(o) || is_stack(o)) { if (g.below(2)) kind = L_REM; else a = v.next(); if (kind == L_REM && o == O_LCRQ) d++; }
        else if (is_hash(o)) { int q = (int)g.below(5); kind = q < 2 ? L_INS : q < 3 ? L_REM : L_FIND; a = (i64)g.below(4); b = (i64)g.below(100); }
        else a = v.next();
        if (lk >= 0 && g.below(3) == 0) kind += 50;
        s.ops.push_back({p, i * 100 + kind, a, b});
    }
    bool lc = false; for (int i = 0; i < no; i++) lc |= s.get(fmt("o%d", i).c_str()) == O_LCRQ;
    s.setdef("fair", (lc ? 2000000 + 1500000 * (i64)(d + 3 + n) : 400000) + 6000 * (i64)s.ops.size());
}
RegScenario r1({"multi", gen, body, check});
}
