#include "sc.h"
#include <string.h>
#include <stdlib.h>
const char *obj_names[O_N] = {"CC-Synch", "DSM-Synch", "H-Synch", "Oyama", "FC", "Osci", "Sim", "LFUObject",
    "CC-Queue", "DSM-Queue", "H-Queue", "OsciQueue", "FC-Queue", "MS-Queue", "LCRQ", "SimQueue",
    "CC-Stack", "DSM-Stack", "H-Stack", "OsciStack", "FC-Stack", "LF-Stack", "SimStack", "CLH-Hash", "DSM-Hash", "CLH", "MCS"};

void gen_machine(Spec &s, Rng &g, int n) {
    static const int C[] = {1, 2, 3, 4, 4, 6, 8, 8, 12, 16, 24, 64};
    int c = C[g.below(12)];
    if (g.below(3) && c < n) c = n + (int)g.below(4);
    s.setdef("ncpus", c);
    c = (int)s.get("ncpus");
    static const int N[] = {1, 1, 1, 2, 2, 3, 4};
    s.setdef("nodes", std::min<i64>(N[g.below(7)], c));
    i64 nd = s.get("nodes");
    s.setdef("smt", c >= 2 && c % 2 == 0 && c / 2 >= nd && g.below(2));
    s.setdef("policy", 1 + (i64)g.below(5));
    s.setdef("vendor", (i64)g.below(3));
}
void apply_machine(Run &r, int n) {
    lb_policy((unsigned)r.get("policy", 4));
    if (n > r.get("ncpus", 8)) r.faults[F_OVERSUB]++;
    if (r.get("ncpus", 8) == 1 || r.get("ncpus", 8) % r.get("nodes", 2) || (r.get("ncpus", 8) % 2)) r.faults[F_TOPOLOGY]++;
}
void gen_object(Spec &s, Rng &g, int obj, int n, int fib, const char *pre) {
    std::string p1 = std::string(pre) + "p1", p2 = std::string(pre) + "p2";
    i64 v1 = 1, v2 = 1;
    if (uses_osci(obj)) v1 = fib > 1 || g.below(3) == 0 ? fib : 1 + (i64)g.below((u64)std::min(n, 4));   // groups of fibers, or of threads
    else if (uses_h(obj)) { static const i64 K[] = {0, 0, 1, 2, 3, 4, 8}; v1 = K[g.below(7)]; }
    else if (is_hash(obj)) { static const i64 K[] = {1, 1, 2, 3, 7, 16}; v1 = K[g.below(6)]; }
    if (has_backoff(obj)) { static const i64 K[] = {0, 1, 1, 3, 10, 40}; v2 = K[g.below(6)]; }
    if ((obj == O_SIM || obj == O_LFU) && !*pre && n <= 7 && g.below(3) == 0) v1 = 3;    // an object with few states
    s.setdef(p1.c_str(), v1); s.setdef(p2.c_str(), v2);
}
i64 Values::next() {
    static const i64 SP[] = {0, 1, -1, INT_MIN, INT_MAX, LONG_MAX, LONG_MIN + 2, (i64)INT_MIN - 1, 1LL << 32, -2, (1LL << 62)};
    if (g.below(8) == 0) {
        i64 v = SP[g.below(11)];
        if (!(v == -1 && obj == O_LCRQ) && used.insert(v).second) return v;
    }
    i64 v; do v = ++k; while (!used.insert(v).second);
    return v;
}
void gen_coll_ops(Spec &s, Rng &g, int obj, int n, int maxops) {
    Values v(g, obj);
    int dup = g.below(10) == 0;                       // few distinct values: exercises ABA
    s.set("dup", dup);
    s.setdef("long", 0);
    int style = (int)g.below(5), total = 0, pre = (int)g.below(3) ? 0 : (int)g.below(4);
    for (int p = 0; p < n; p++) {
        int k = 1 + (int)g.below(maxops);
        for (int i = 0; i < k; i++) {
            int kind = L_INS;
            switch (style) {
                case 0: kind = g.below(2) ? L_INS : L_REM; break;
                case 1: kind = i % 2 ? L_REM : L_INS; break;
                case 2: kind = p % 2 ? L_REM : L_INS; break;
                case 3: kind = g.below(3) ? L_INS : L_REM; break;
                case 4: kind = g.below(3) ? L_REM : L_INS; break;
            }
            if (p == 0 && i < pre) kind = L_INS;
            i64 a = 0;
            if (kind == L_INS) a = dup ? (i64)g.below(2) + 1 : v.next();
            s.ops.push_back({p, kind, a, 0});
            total++;
        }
    }
}
void gen_chain_ops(Spec &s, Rng &g, int n, int maxops) {
    Values v(g, O_CC);
    for (int p = 0; p < n; p++) { int k = 1 + (int)g.below(maxops); for (int i = 0; i < k; i++) s.ops.push_back({p, L_INS, v.next(), 0}); }
}
void gen_hash_ops(Spec &s, Rng &g, int n, int maxops) {
    int nk = 1 + (int)g.below(5), cells = (int)s.get("p1", 1);
    std::vector<i64> keys;
    static const i64 SP[] = {0, 1, -1, -2, -7, LONG_MIN, LONG_MAX, INT_MIN, INT_MAX, (1LL << 32), -(1LL << 33)};
    bool coll = g.below(2);
    for (int i = 0; i < nk; i++) keys.push_back(g.below(3) == 0 ? SP[g.below(11)] : coll ? (i64)(1 + cells * i) * (g.below(5) ? 1 : -1) : (i64)g.below(20) - (g.below(4) == 0 ? 15 : 0));
    for (int p = 0; p < n; p++) {
        int k = 1 + (int)g.below(maxops);
        for (int i = 0; i < k; i++) { int q = (int)g.below(5); s.ops.push_back({p, q < 2 ? L_INS : q < 3 ? L_REM : L_FIND, g.pick(keys), (i64)g.below(1000)}); }
    }
}
std::vector<LinOp> history(const Run &r, int lo, int hi) {
    std::vector<LinOp> h;
    for (auto &o : r.ops) if (o.kind >= lo && o.kind < hi) h.push_back({o.kind, o.a, o.b, o.ret, o.inv, o.res, o.done});
    return h;
}
// the conditions of check_coll on histories of 100000 operations; stacks: only among insertions close to each other
struct P { u64 i0, i1, r0, r1; i64 v; bool out; };
static void check_long(Run &r, const char *nm, bool q, bool full, const std::vector<LinOp> &h, std::vector<P> &v) {
    std::sort(v.begin(), v.end(), [](const P &a, const P &b) { return a.i0 < b.i0; });
    auto late = [&](const P &a) -> u64 { return a.out ? a.r0 : full && a.i1 != ~0ULL ? ~0ULL : 0; };      // in the object at least until then
    std::vector<const P *> e; for (auto &a : v) if (a.i1 != ~0ULL) e.push_back(&a);
    std::sort(e.begin(), e.end(), [](const P *a, const P *b) { return a->i1 < b->i1; });
    std::vector<const P *> best; for (auto *a : e) best.push_back(best.empty() || late(*a) > late(*best.back()) ? a : best.back());
    auto before = [&](u64 t) -> const P * { size_t k = (size_t)(std::lower_bound(e.begin(), e.end(), t, [](const P *a, u64 x) { return a->i1 < x; }) - e.begin()); return k ? best[k - 1] : nullptr; };
    if (q) { for (auto &b : v) if (b.out) if (const P *a = before(b.i0)) if (late(*a) > b.r1) { run_fail(r, "not-linearizable", "%s: value %lld inserted after %lld but removed before it", nm, (long long)b.v, (long long)a->v); return; } }
    else {
        for (size_t j = 0; j < v.size(); j++) for (size_t i = j > 200 ? j - 200 : 0; i < j; i++) {
            P &a = v[i], &b = v[j];
            if (a.i1 < b.i0 && a.out && b.i1 < a.r0 && (b.out ? a.r1 < b.r0 : full)) { run_fail(r, "not-linearizable", "%s: value %lld removed although %lld was above it", nm, (long long)a.v, (long long)b.v); return; }
        }
    }
    for (auto &o : h) if (o.kind == L_REM && o.done && o.ret == EMPTYV) if (const P *a = before(o.inv)) if (late(*a) > o.res) { run_fail(r, "not-linearizable", "%s: a removal found the object empty although %lld was in it all the time", nm, (long long)a->v); return; }
}
void check_coll(Run &r, int obj, const std::vector<LinOp> &h, bool drained) {
    const char *nm = obj_names[obj];
    bool q = is_queue(obj);
    std::map<i64, int> ins, rem;
    size_t ni = 0, nr = 0, pend_rem = 0;
    for (auto &o : h) {
        if (o.kind == L_INS) { ins[o.a]++; ni++; }
        else if (!o.done) pend_rem++;
        else if (o.ret != EMPTYV) { rem[o.ret]++; nr++; }
    }
    for (auto &x : rem) {
        auto it = ins.find(x.first);
        if (it == ins.end()) { run_fail(r, "not-linearizable", "%s: removed value %lld was never inserted", nm, (long long)x.first); return; }
        if (x.second > it->second) { run_fail(r, "not-linearizable", "%s: value %lld removed %d times but inserted %d times", nm, (long long)x.first, x.second, it->second); return; }
    }
    if (drained) {
        size_t lost = 0; i64 ex = 0;
        for (auto &o : h) if (o.kind == L_INS && o.done) { auto it = rem.find(o.a); if (it == rem.end() || it->second < 1) { lost++; ex = o.a; } else it->second--; }
        if (lost > pend_rem) { run_fail(r, "not-linearizable", "%s: %zu inserted value(s) lost, e.g. %lld, although the object was emptied", nm, lost, (long long)ex); return; }
    }
    if (h.size() <= 48) {
        std::string e; u64 st = 0;
        if (!linearizable(q ? M_QUEUE : M_STACK, h, EMPTYV, e, &st, 0, 200000)) run_fail(r, "not-linearizable", "%s: %s", nm, e.c_str());
        r.probes["lin_states"] += st; r.probes["lin_checks"]++;
        if (st <= 200000 || !r.cls.empty()) return;
    }
    if (r.get("dup")) return;
    r.probes["long_checks"]++;
    std::map<i64, P> m;
    for (auto &o : h) if (o.kind == L_INS) m[o.a] = {o.inv, o.res, ~0ULL, ~0ULL, o.a, false};
    for (auto &o : h) if (o.kind == L_REM && o.done && o.ret != EMPTYV) { P &p = m[o.ret]; p.r0 = o.inv; p.r1 = o.res; p.out = true; if (p.r1 < p.i0) { run_fail(r, "not-linearizable", "%s: value %lld removed before it was inserted", nm, (long long)o.ret); return; } }
    std::vector<P> v; for (auto &x : m) v.push_back(x.second);
    bool full = pend_rem == 0;
    if (v.size() > 1500) { check_long(r, nm, q, full, h, v); return; }
    for (auto &a : v) for (auto &b : v) {
        if (a.i1 >= b.i0) continue;                                  // a inserted strictly before b
        if (q) { if (b.out && (a.out ? b.r1 < a.r0 : full && a.i1 != ~0ULL)) { run_fail(r, "not-linearizable", "%s: value %lld inserted after %lld but removed before it", nm, (long long)b.v, (long long)a.v); return; } }
        else { if (a.out && b.i1 < a.r0 && (b.out ? a.r1 < b.r0 : full)) { run_fail(r, "not-linearizable", "%s: value %lld removed although %lld was above it", nm, (long long)a.v, (long long)b.v); return; } }
    }
    for (auto &o : h) if (o.kind == L_REM && o.done && o.ret == EMPTYV)
        for (auto &a : v) if (a.i1 < o.inv && (a.out ? a.r0 > o.res : full)) { run_fail(r, "not-linearizable", "%s: a removal found the object empty although %lld was in it all the time", nm, (long long)a.v); return; }
}
void check_hash(Run &r, int obj, const std::vector<LinOp> &h) {
    std::map<i64, std::vector<LinOp>> by;
    for (auto &o : h) by[o.a].push_back(o);
    for (auto &k : by) {
        std::string e; u64 st = 0;
        r.probes["lin_checks"]++;
        if (!linearizable(M_SET, k.second, 0, e, &st)) { run_fail(r, "not-linearizable", "%s: key %lld: %s", obj_names[obj], (long long)k.first, e.c_str()); return; }
        r.probes["lin_states"] += st;
    }
}
// the log of applications: the first 1200 in simulated memory, the rest kept by the harness (marathon runs)
std::vector<std::pair<long, long>> LATE;
extern "C" void h_log(long i, long arg, long pid) { size_t k = (size_t)(i - 1200); if (i < 1200 || k > 4000000) return; if (LATE.size() <= k) LATE.resize(k + 1); LATE[k] = {arg, pid}; }
std::pair<long, long> applied(const Seq *q, long i) { return i < 1200 ? std::make_pair((long)q->log[i].arg, (long)q->log[i].pid) : (size_t)(i - 1200) < LATE.size() ? LATE[(size_t)(i - 1200)] : std::make_pair(0L, -1L); }
void check_chain_log(Run &r, const char *nm, const Seq *q, std::vector<ChainOp> h) {
    if (q->overlap) { run_fail(r, "not-linearizable", "%s: requests were applied to the object at the same time", nm); return; }
    if ((size_t)q->n != h.size()) { run_fail(r, "not-linearizable", "%s: %ld requests applied, %zu issued", nm, q->n, h.size()); return; }
    std::map<i64, int> pos; i64 v = 12345;
    for (long i = 0; i < q->n; i++) { pos[v] = (int)i; auto l = applied(q, i); v = chain(v, l.first, l.second); }
    std::vector<int> at(h.size(), -1);
    for (size_t i = 0; i < h.size(); i++) {
        if (!h[i].done) { run_fail(r, "not-linearizable", "%s: request %zu not completed", nm, i); return; }
        auto it = pos.find(h[i].ret);
        if (it == pos.end()) { run_fail(r, "not-linearizable", "%s: request (%lld by %d) received %lld, which no request returned", nm, (long long)h[i].a, h[i].pid, (long long)h[i].ret); return; }
        int p = it->second;
        auto lp = applied(q, p);
        if (lp.first != h[i].a || lp.second != h[i].pid) { run_fail(r, "not-linearizable", "%s: request (%lld by %d) received the result of the request applied as (%ld by %ld)", nm, (long long)h[i].a, h[i].pid, lp.first, lp.second); return; }
        if (at[p] >= 0) { run_fail(r, "not-linearizable", "%s: two requests received the same result", nm); return; }
        at[p] = (int)i;
    }
    u64 maxinv = 0; int who = -1;
    for (size_t p = 0; p < at.size(); p++) { ChainOp &o = h[at[p]]; if (o.res < maxinv) { run_fail(r, "not-linearizable", "%s: request (%lld by %d) was applied before (%lld by %d), which had returned before it was issued", nm, (long long)h[who].a, h[who].pid, (long long)o.a, o.pid); return; } if (o.inv > maxinv) { maxinv = o.inv; who = at[p]; } }
}
void check_chain_free(Run &r, const char *nm, i64 init, std::vector<ChainOp> h) {
    std::map<i64, int> by; std::vector<int> pend; size_t need = 0;
    for (size_t i = 0; i < h.size(); i++) {
        if (!h[i].done) { pend.push_back((int)i); continue; }
        need++;
        if (!by.insert({h[i].ret, (int)i}).second) { run_fail(r, "not-linearizable", "%s: two requests saw the same object state %lld", nm, (long long)h[i].ret); return; }
    }
    std::vector<int> order; std::vector<char> used(h.size(), 0); size_t got = 0;
    std::set<std::pair<i64, std::pair<i64, i64>>> tried; std::set<i64> dead;
    for (auto &e : r.edges) tried.insert({e.old, {e.arg, e.pid}});
    std::function<bool(i64, int)> go = [&](i64 cur, int depth) -> bool {
        size_t mark = order.size(); size_t g0 = got;
        for (;;) { auto it = by.find(cur); if (it == by.end() || used[it->second]) break; int i = it->second; used[i] = 1; order.push_back(i); got++; cur = chain(cur, h[i].a, h[i].pid); }
        if (got == need) return true;
        // the next state was made by a request whose thread stopped: one that was tried on this state
        if (!dead.count(cur)) for (int p : pend) if (!used[p] && tried.count({cur, {h[p].a, h[p].pid}})) { used[p] = 1; order.push_back(p); if (go(chain(cur, h[p].a, h[p].pid), depth + 1)) return true; used[p] = 0; order.pop_back(); }
        dead.insert(cur);
        while (order.size() > mark) { used[order.back()] = 0; order.pop_back(); }
        got = g0;
        return false;
    };
    if (!go(init, 0)) { run_fail(r, "not-linearizable", "%s: the results of %zu completed requests do not form one chain of object states (a request was lost, applied twice or on a stale state)", nm, need); return; }
    u64 maxinv = 0; int who = -1;
    for (int i : order) { ChainOp &o = h[i]; if (o.done && o.res < maxinv) { run_fail(r, "not-linearizable", "%s: request (%lld by %d) took effect before (%lld by %d), which had returned before it was issued", nm, (long long)h[who].a, h[who].pid, (long long)o.a, o.pid); return; } if (o.inv > maxinv) { maxinv = o.inv; who = i; } }
    // the last pending request may have been applied at the end: nothing to check
}
void check_small(Run &r, const char *nm, const std::vector<ChainOp> &c) {
    std::vector<LinOp> h; for (auto &x : c) h.push_back({L_INS, x.a, 0, x.ret, x.inv, x.res, x.done});
    std::string e; u64 st = 0; std::vector<i64> init = {0};
    r.probes["lin_checks"]++;
    if (!linearizable(M_SMALL, h, 0, e, &st, &init, 200000)) run_fail(r, "not-linearizable", "%s (object with three states; 0 read 1 +1 2 +2 3 if zero then one else zero): %s", nm, e.c_str());
    r.probes["lin_states"] += st;
}
void hbar_wait(HBar &b) {
    int ph = b.ph;
    if (++b.c == b.n) { b.c = 0; b.ph++; return; }
    while (b.ph == ph) { lb_fib_yield(); sim_yield(); }
}

Served SERVED;
extern "C" void h_served() { Served &v = SERVED; if (!v.bound) return; int p = lb_id(); if (p < 0 || p >= 256) return; long k = ++v.by[p]; if (k > v.most) v.most = k; if (k > v.bound) sim_fail("unbounded-combining", "thread %d has served %ld requests within one operation of its own (%d threads)", p, k, v.n); }
extern "C" void h_pause() { sim_yield(); }
extern "C" void h_edge(long old, long arg, long pid) { if (R->edges.size() < 100000) R->edges.push_back({old, arg, pid}); }

void stat_totals(long v[4]) {
    std::string kept; kept.swap(R->outtext);
    lb_print_stats(1, 1);
    std::string t; t.swap(R->outtext); R->outtext.swap(kept);
    auto num = [&](const char *k) -> double {
        size_t p = t.find(k);
        if (p == std::string::npos) { sim_fail("stats", "the printed statistics have no %s: %s", k, t.c_str()); }
        return atof(t.c_str() + p + strlen(k));
    };
    auto whole = [&](const char *k) -> long { num(k); return atol(t.c_str() + t.find(k) + strlen(k)); };
    v[0] = whole("executed_CAS: "); v[1] = v[0] - whole("successful_CAS: "); v[2] = whole("executed_SWAP: "); v[3] = whole("executed_FAA: ");
    if (whole("atomics: ") != v[0] + v[2] + v[3]) sim_fail("stats", "the printed number of atomics is not the sum of the printed parts: %s", t.c_str());
    double f = num("failed_CAS_per_op: ");
    if (f < v[1] - 0.01 - v[1] * 1e-5 || f > v[1] + 0.01 + v[1] * 1e-5) sim_fail("stats", "the printed failed compare-and-swaps per operation do not match executed and successful ones: %s", t.c_str());
}
void StatTrack::verify(const char *what) {
    if (!ad_debug()) return;
    static const char *nm[4] = {"executed compare-and-swaps", "failed compare-and-swaps", "swaps", "fetch-and-adds"};
    bool ef = ad_emu_faa(), es = ad_emu_swap();
    long now[4]; stat_totals(now);
    for (int k = 0; k < 4; k++) {
        u64 lo = 0, hi = 0;
        for (auto &x : in) { u64 a = x.second[k], b = out.count(x.first) ? out[x.first][k] : a, e = sim_atomics(x.first, k); lo += b - a; hi += k == 3 ? b - a + 4 : b - a; if (ef && k < 2) hi += e - b; if (k == 1) hi += sim_atomics(x.first, 4) - x.second[4]; }
        if ((k == 3 && ef) || (k == 2 && es)) continue;              // emulated: counted by the primitives scenario
        long got = now[k] - before[k];
        if (got < (long)lo || got > (long)hi) sim_fail("stats", "%s: %ld %s counted, %llu executed by %zu threads", what, got, nm[k], (unsigned long long)lo, in.size());
    }
    R->probes["stat_checks"]++;
}
