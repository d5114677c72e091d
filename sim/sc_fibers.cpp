// Fibers inside one or more simulated threads.
#include "sc.h"
namespace {
struct Fib { bool spawned, started, finished; long turns; };
struct Ctx { std::vector<Fib> f; int active, max; bool waiting; u64 base; };
struct St { Ctx c[3]; int left; size_t cap; } W;
struct Arg { int th, id; };
long pack(int th, int id) { return th * 1000000L + id; }
void yield_checked(int th, int id) {
    Ctx &c = W.c[th];
    std::vector<long> before; for (auto &x : c.f) before.push_back(x.turns);
    std::vector<char> was; for (auto &x : c.f) was.push_back(x.spawned && !x.finished);
    volatile long l1 = th * 7919L + id, l2 = -l1; long arr[4] = {l1, l2, l1 + 1, l2 - 1};
    double d = (double)l1 * 1.5;
    lb_fib_yield();
    if (l1 != th * 7919L + id || l2 != -l1 || arr[0] != l1 || arr[3] != l2 - 1 || d != (double)l1 * 1.5) sim_fail("fiber-state", "fiber %d of thread %d finds its local variables changed after a yield", id, th);
    for (size_t i = 0; i < before.size(); i++) {
        if ((int)i == id || !was[i] || W.c[th].f[i].finished) continue;
        if (i == 0 && W.c[th].waiting) continue;          // inside synchWaitForAllFibers its turns cannot be observed
        if (W.c[th].f[i].turns == before[i]) sim_fail("fiber-fairness", "fiber %d of thread %d runs again after a yield although fiber %zu, which is not finished, had no turn", id, th, i);
    }
    W.c[th].f[id].turns++;
}
void *fiber(void *);
bool spawn(int th, bool expect_room) {
    Ctx &c = W.c[th];
    int id = (int)c.f.size();
    c.f.push_back({false, false, false, 0});
    int rc = lb_fib_spawn(fiber, pack(th, id));
    bool room = W.c[th].active < W.c[th].max;
    (void)expect_room;
    if (rc != -1 && !room) sim_fail("fiber-limit", "thread %d has %d fibers of %d and spawned one more", th, W.c[th].active, W.c[th].max);
    if (rc == -1) { if (room) sim_fail("fiber-limit", "thread %d has %d fibers of %d but cannot spawn another", th, W.c[th].active, W.c[th].max); W.c[th].f.pop_back(); return false; }
    W.c[th].f[id].spawned = true; W.c[th].active++;
    return true;
}
void run_plan(int th, int id) {
    const Spec &s = *R->spec;
    for (auto &o : s.ops) {
        if (o.pid != th || o.a != id % 8) continue;
        if (o.kind == 1) for (int k = 0; k <= o.b % 4; k++) yield_checked(th, id);
        else if (o.kind == 2) { if (W.c[th].f.size() < W.cap) spawn(th, true); W.c[th].f[id].turns++; }
        else sim_point_here();
    }
}
void *fiber(void *arg) {
    int th = (int)((long)arg / 1000000), id = (int)((long)arg % 1000000);
    if (id >= (int)W.c[th].f.size()) sim_fail("fiber-run", "a fiber runs with an id nobody spawned");
    if (W.c[th].f[id].started) sim_fail("fiber-run", "fiber %d of thread %d runs twice", id, th);
    W.c[th].f[id].started = true; W.c[th].f[id].turns++;
    run_plan(th, id);
    W.c[th].f[id].finished = true; W.c[th].active--;
    return 0;
}
void *worker(void *arg) {
    int th = (int)(long)arg; const Spec &s = *R->spec;
    Ctx &c = W.c[th];
    c.max = (int)s.get("max", 3);
    lb_fib_init(c.max);
    c.f.push_back({true, true, false, 1}); c.active = 1;      // the thread itself
    c.base = sim_live_bytes();
    int rounds = (int)s.get("rounds", 1);
    for (int k = 0; k < rounds; k++) {
        int want = (int)s.get(fmt("s%d", k).c_str(), 2);
        for (int i = 0; i < want; i++) if (W.c[th].f.size() < W.cap) spawn(th, true);
        run_plan(th, 0);
        W.c[th].waiting = true; lb_fib_wait(); W.c[th].waiting = false;
        W.c[th].f[0].turns++;
        for (size_t i = 1; i < W.c[th].f.size(); i++) if (W.c[th].f[i].spawned && !W.c[th].f[i].finished) sim_fail("fiber-wait", "waiting for all fibers returned although fiber %zu of thread %d %s", i, th, W.c[th].f[i].started ? "has not finished" : "never ran");
        if (s.get("threads", 1) == 1 && sim_live_bytes() > W.c[th].base) sim_fail("fiber-memory", "all %zu fibers have finished but %llu bytes obtained for them are still held", W.c[th].f.size() - 1, (unsigned long long)(sim_live_bytes() - W.c[th].base));
    }
    W.left--;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("threads", 1);
    W = St(); W.left = n; W.cap = r.get("mara") ? (size_t)r.get("mara") : 24;
    sim_open_gate();
    for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false);
    worker(0);
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "fibers: the program ended with status %d: %s", r.exit_code, r.outtext.c_str()); return; }
    if (W.left) run_fail(r, "hang", "fibers: %d threads never finished", W.left);
}
void gen(Spec &s, Rng &g) {
    int n = g.below(3) ? 1 : 2 + (int)g.below(2); s.set("threads", n); s.set("n", n);
    s.set("ncpus", 8); s.set("nodes", 2);
    s.set("max", 1 + (i64)g.below(6));
    int rounds = 1 + (int)g.below(4); s.set("rounds", rounds);
    for (int k = 0; k < rounds; k++) s.set(fmt("s%d", k).c_str(), (i64)g.below(6));
    if (s.cfg.count("mara") || g.below(600) == 0) {                 // very many fibers one after another
        static const i64 MA[] = {300, 600, 1100};
        if (!s.cfg.count("mara")) s.set("mara", MA[g.below(3)]);
        rounds = (int)s.get("mara") / 2; s.set("rounds", rounds); n = 1; s.set("threads", n); s.set("n", n);
        for (int k = 0; k < rounds; k++) s.set(fmt("s%d", k).c_str(), 1 + (i64)g.below(5));
        for (int i = (int)g.below(6); i > 0; i--) s.ops.push_back({0, 1 + (int)(g.below(5) < 3 ? 0 : g.below(3)), (i64)g.below(8), (i64)g.below(10)});
        s.set("stall", 0); s.set("hold", 0); s.setdef("fair", 400000 + 10000 * s.get("mara"));
        return;
    }
    for (int t = 0; t < n; t++) for (int i = (int)g.below(16); i > 0; i--) s.ops.push_back({t, 1 + (int)(g.below(5) < 3 ? 0 : g.below(3)), (i64)g.below(8), (i64)g.below(10)});
    s.setdef("fair", 400000);
}
RegScenario r1({"fibers", gen, body, check});
}
