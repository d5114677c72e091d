// The millisecond clock.
#include "sc.h"
namespace {
struct St { int left; long last; int done; } W;
void *worker(void *arg) {
    int pid = (int)(long)arg;
    long mine = LONG_MIN;
    i64 fail = R->get("clock_fail_from", 0);
    for (auto &o : R->spec->ops) {
        if (o.pid != pid) continue;
        if (o.kind == 2) { for (int i = 0; i < o.b % 50; i++) sim_point_here(); continue; }
        if (o.kind == 3) { sim_yield(); continue; }
        int h = op_begin(pid, 1, 0, 0);
        bool f0 = R->faults[F_CLOCKFAIL] > 0;
        i64 lo = sim_mono_ns() / 1000000;
        long t = lb_millis();
        i64 hi = sim_mono_ns() / 1000000;
        bool f1 = R->faults[F_CLOCKFAIL] > 0;
        op_end(h, t);
        if (fail && (f0 || f1)) continue;                   // an unreadable clock: only has to return
        if (t < lo || t > hi) sim_fail("time", "thread %d reads %ld ms while the monotonic clock goes from %lld to %lld ms", pid, t, (long long)lo, (long long)hi);
        if (t < mine) sim_fail("time", "thread %d reads %ld ms after %ld ms", pid, t, mine);
        mine = t;
    }
    W.left--; W.done++;
    return 0;
}
void body(Run &r) {
    int n = (int)r.get("n", 1);
    W = St(); W.left = n;
    sim_open_gate();
    for (int i = 1; i < n; i++) sim_spawn(worker, (void *)(long)i, false);
    worker(0);
    sim_wait_all();
}
void check(Run &r) {
    if (r.exited) { run_fail(r, "exit", "clock: the program ended with status %d (clock unreadable: %d): %s", r.exit_code, r.faults[F_CLOCKFAIL] > 0, r.outtext.c_str()); return; }
    if (W.left) run_fail(r, "hang", "clock: %d threads never finished", W.left);
}
void gen(Spec &s, Rng &g) {
    int n = 1 + (int)g.below(4); s.set("n", n); s.set("ncpus", 8); s.set("nodes", 2);
    static const i64 NS[] = {1, 10, 1000, 50000, 300000, 999999, 1000000, 3000001, 1000000000LL, 70000000000LL};
    s.set("ns_per_step", NS[g.below(10)]);
    static const i64 CB[] = {0, 1, 999, 1000, 1001, 86400000LL, 2147483647LL, 2147483648LL, 4294967295LL, 1LL << 33, 1000000000000LL};
    s.set("clock_base", CB[g.below(11)] + (i64)g.below(1000));
    if (g.below(2)) { s.set("wall_jump_every", 1 + (i64)g.below(4)); s.set("wall_jump_ms", (i64)g.below(10000000)); }
    s.set("wall_off", 1600000000LL + (i64)g.below(100000));
    if (g.below(4) == 0) s.set("clock_fail_from", 1 + (i64)g.below(8));
    for (int p = 0; p < n; p++) for (int k = 2 + (int)g.below(10); k > 0; k--) s.ops.push_back({p, g.below(3) ? 1 : 2 + (int)g.below(2), 0, (i64)g.below(100)});
    s.setdef("fair", 100000);
}
RegScenario r1({"time", gen, body, check});
}
