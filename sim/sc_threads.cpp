// Starting, identifying and joining threads and fibers over several rounds of one program.
// Also serves the placement property (cfg place=1) and refused pinning (cfg aff_fail=1).
#include "sc.h"
namespace {
struct St { int round, n, fib, done; std::vector<int> runs, cpu, node, core, tid; std::vector<long> posix; int rounds_done; StatTrack st; long *word; } W;
void *worker(void *arg) {
    int pid = (int)(long)arg;
    if (pid < 0 || pid >= W.n) sim_fail("thread-id", "round %d started a function with id %d outside 0..%d", W.round, pid, W.n - 1);
    if (W.runs[pid]++) sim_fail("start", "round %d ran the function of id %d twice", W.round, pid);
    W.cpu[pid] = sim_thread_cpu(sim_tid()); W.node[pid] = lb_node(); W.core[pid] = lb_core(); W.tid[pid] = sim_tid(); W.posix[pid] = lb_posix_id();
    const Spec &s = *R->spec;
    W.st.enter();
    auto ask = [&](const char *when) {
        int id = lb_id();
        if (id != pid) sim_fail("thread-id", "round %d (%d threads, %d fibers each): thread started with id %d is told its id is %d %s", W.round, W.n, W.fib, pid, id, when);
        if (W.fib == 1 && lb_posix_id() != pid) sim_fail("thread-id", "round %d: thread %d is told its posix thread id is %d", W.round, pid, lb_posix_id());
    };
    ask("at its start");
    volatile long local = pid * 1000003L;
    for (auto &o : s.ops) {
        if (o.pid != pid || o.b != W.round) continue;
        int h = op_begin(pid, o.kind, o.a, o.b);
        if (o.kind == 1) lb_resched(); else if (o.kind == 2) sim_point_here(); else if (o.kind == 3) lb_fib_yield();
        else { lb_faa64(W.word, 1); lb_cas64(W.word + 8, (u64)h_load(W.word + 8), (u64)pid); lb_swap(W.word + 16, W.word); lb_cas32(W.word + 24, 7, 7); }
        op_end(h, 0);
        ask("later on");
    }
    if (local != pid * 1000003L) sim_fail("fiber-state", "a local variable of thread %d changed", pid);
    int want = W.fib > 1 ? 1 : W.n > R->get("ncpus", 8);
    if (lb_oversub() != want) sim_fail("thread-mode", "round %d: %d threads on %d processors, %d fibers each: oversubscribed is reported as %d", W.round, W.n, (int)R->get("ncpus", 8), W.fib, lb_oversub());
    W.st.leave();
    W.done++;
    return 0;
}
void place(Run &r) {
    int n = W.n, nc = (int)r.get("ncpus", 8), nn = (int)r.get("nodes", 2);
    int pol = (int)r.get(fmt("policy%d", W.round).c_str(), r.get("policy", 4));
    std::map<int, std::set<int>> use;
    for (int p = 0; p < n; p++) {
        if (W.runs[p] != 1) return;
        if (W.cpu[p] == -1 || W.cpu[p] == -2) { if (!r.get("aff_fail")) sim_fail("placement", "thread %d was not pinned to an online processor (%d processors, %d nodes, policy %d)", p, nc, nn, pol); }
        else {
            if (W.cpu[p] != W.core[p]) sim_fail("placement", "thread %d is pinned to processor %d but reports %d", p, W.cpu[p], W.core[p]);
            use[W.cpu[p]].insert(W.tid[p]);
        }
        if (W.core[p] < 0 || W.core[p] >= nc) sim_fail("placement", "thread %d reports processor %d of %d", p, W.core[p], nc);
        int nd = ad_numa() ? nn : 1;
        if (W.node[p] < 0 || W.node[p] >= nd) sim_fail("placement", "thread %d reports NUMA node %d of %d (%d processors, policy %d)", p, W.node[p], nn, nc, pol);
        bool regular = nc % nn == 0 && (!r.get("smt") || (nc % 2 == 0 && (nc / 2) % nn == 0));
        if (ad_numa() && regular && sim_node_of_cpu(W.core[p]) != W.node[p]) sim_fail("placement", "thread %d on processor %d reports NUMA node %d, but the processor belongs to node %d (%d processors, %d nodes, smt %d, policy %d)", p, W.core[p], W.node[p], sim_node_of_cpu(W.core[p]), nc, nn, (int)r.get("smt"), pol);
        if (lb_core_of((unsigned)(p % nc)) >= (unsigned)nc) sim_fail("placement", "preferred processor of thread %d is %u of %d", p, lb_core_of((unsigned)(p % nc)), nc);
    }
    // all processors are used before one is shared
    bool regular = nc % nn == 0 && (!r.get("smt") || (nc % 2 == 0 && (nc / 2) % nn == 0));
    if (!r.get("aff_fail") && (regular || !ad_numa() || pol == 1 || pol == 3)) {
        int th = n / W.fib;                                      // the fibers of a thread share its processor
        size_t lo = ~0UL, hi = 0;
        for (int c = 0; c < nc; c++) { size_t k = use.count(c) ? use[c].size() : 0; lo = std::min(lo, k); hi = std::max(hi, k); }
        if (th <= nc ? hi > 1 : hi - lo > 1) sim_fail("placement", "%d threads on %d processors (%d nodes, smt %d, policy %d): one processor has %zu threads, another %zu", th, nc, nn, (int)r.get("smt"), pol, hi, lo);
    }
}
void body(Run &r) {
    W = St();
    W.word = (long *)sim_calloc(64 * 4);
    int rounds = (int)r.get("rounds", 1);
    if (r.get("ncpus", 8) == 1 || r.get("ncpus", 8) % r.get("nodes", 2) || (r.get("ncpus", 8) % 2)) r.faults[F_TOPOLOGY]++;
    for (int k = 0; k < rounds; k++) {
        W.round = k; W.n = (int)r.get(fmt("n%d", k).c_str(), 2); W.fib = (int)r.get(fmt("f%d", k).c_str(), 1); W.done = 0;
        W.runs.assign(W.n, 0); W.cpu.assign(W.n, -1); W.node = W.core = W.tid = W.cpu; W.posix.assign(W.n, -1);
        lb_policy((unsigned)r.get(fmt("policy%d", k).c_str(), r.get("policy", 4)));
        if (W.n > r.get("ncpus", 8)) r.faults[F_OVERSUB]++;
        W.st.start();
        sim_open_gate();
        lb_start((unsigned)W.n, worker, (unsigned)W.fib);
        lb_join((unsigned)W.n);
        if (W.done != W.n) sim_fail("join", "round %d: joining %d threads (%d fibers each) returned when %d had finished", k, W.n, W.fib, W.done);
        W.st.verify("after joining");
        place(r);
        if (r.get("drain", 1)) sim_wait_all();
        W.rounds_done++;
    }
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "threads: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.rounds_done != r.get("rounds", 1)) { run_fail(r, "hang", "only %d rounds finished", W.rounds_done); return; }
    if (r.probes.count("bad_affinity")) run_fail(r, "placement", "a thread was pinned to a processor that does not exist");
}
void gen(Spec &s, Rng &g) {
    bool pl = s.get("place");
    int rounds = pl ? 1 : 1 + (int)g.below(4); s.set("rounds", rounds);
    int maxn = 0;
    if (!pl && !s.get("aff_fail") && (s.cfg.count("mara") || g.below(600) == 0)) {    // very many rounds
        static const i64 MA[] = {270, 300, 480};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(3)]);
        rounds = (int)s.get("mara"); s.set("rounds", rounds); int style = (int)g.below(3);
        for (int k = 0; k < rounds; k++) {
            int n = style == 0 ? 2 : 1 + (int)g.below(2), f = style == 1 && g.below(2) ? n : style == 2 ? n : 1;
            s.set(fmt("n%d", k).c_str(), n); s.set(fmt("f%d", k).c_str(), f);
            if (g.below(3) == 0) s.ops.push_back({(int)g.below((u64)n), 1 + (int)g.below(4), 0, k});
        }
        s.set("n", 2); gen_machine(s, g, 2); s.set("aff_fail", 0); s.set("drain", 1);
        s.set("stall", 0); s.set("hold", 0); s.set("opb_den", 0); s.set("chaos", 3000 * rounds); s.set("fair", 600000 + 10000 * rounds);
        return;
    }
    for (int k = 0; k < rounds; k++) {
        static const int NT[] = {1, 2, 2, 3, 4, 4, 6, 8, 12};
        static const int NP[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 40};
        int n = pl ? NP[g.below(15)] : NT[g.below(9)], f = 1;
        if (g.below(pl ? 6 : 2) == 0) { f = 2 + (int)g.below(3); int th = std::max(1, n / f); n = th * f; }
        s.set(fmt("n%d", k).c_str(), n); s.set(fmt("f%d", k).c_str(), f); s.set(fmt("policy%d", k).c_str(), 1 + (i64)g.below(5));
        maxn = std::max(maxn, n);
        for (int p = 0; p < n; p++) for (int i = (int)g.below(pl ? 2 : 6); i > 0; i--) s.ops.push_back({p, 1 + (int)g.below(4), (i64)i, (i64)k});
    }
    s.set("n", maxn);
    if (pl) {
        static const int C[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 18, 20, 24, 32, 48, 64};
        static const int N[] = {1, 2, 3, 4, 5, 6, 8};
        s.setdef("ncpus", C[g.below(17)]); i64 c = s.get("ncpus");
        s.setdef("nodes", g.below(12) == 0 ? N[g.below(7)] : std::min<i64>(c, N[g.below(7)]));
        i64 nd = s.get("nodes");
        s.setdef("smt", c >= 2 && c % 2 == 0 && c / 2 >= nd && g.below(2));
    } else gen_machine(s, g, maxn);
    if (!s.cfg.count("aff_fail")) s.set("aff_fail", pl ? 0 : g.below(8) == 0);
    s.set("drain", g.below(2));
    s.setdef("fair", 600000);
}
RegScenario r1({"threads", gen, body, check});
}
