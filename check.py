#!/usr/bin/env python3
"""check.py ID [--thorough] [--seconds N]: decides one property by simulation against /repo's current tree.

Builds the simulator variants the property needs from the working tree, explores seeded runs on all
processors, and reports.  exit 0: the property held on every run; exit 1: "VIOLATION property=ID replay=PATH"
(minimised, confirmed by a fresh process); exit 2: the machinery itself failed.
"""
import glob, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build as B
from jobs import JOBS, CLASSES, RULES

NW = max(2, min(8, os.cpu_count() or 8))


def known_lines(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.rstrip("\n")
        if not l.startswith("finding: property=%s\t" % pid): continue
        f = l.split("\t")       # finding: property=ID \t scenario \t class \t text in the message \t description
        if len(f) >= 5: out.append(f[1:5])
    return out


def schedule(jobs, total):
    """wrap-around distribution of the jobs' shares over NW workers: [[(job, worker-of-job, seconds)]]"""
    w = float(sum(j[3] for j in jobs))
    plan, cur, left = [[]], 0, total
    for ji, j in enumerate(jobs):
        need, k = NW * total * j[3] / w, 0
        while need > 0.05:
            t = min(need, left)
            plan[-1].append((ji, k, t)); k += 1
            need -= t; left -= t
            if left <= 0.05: plan.append([]); left = total
    return [p for p in plan if p]


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv
    secs = float(sys.argv[sys.argv.index("--seconds") + 1]) if "--seconds" in sys.argv else (600 if thorough else 32)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    jobs = JOBS[pid]
    variants = sorted({j[0] for j in jobs})
    work = tempfile.mkdtemp(prefix="simcheck.%s." % pid)
    try:
        return run(pid, thorough, secs, seed, t0, jobs, variants, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, thorough, secs, seed, t0, jobs, variants, work):
    print("check %s: VERIF_SEED=%d, %s, variants %s" % (pid, seed, "thorough" if thorough else "quick", ",".join(variants)), flush=True)
    try:
        warns = B.build(os.path.join(work, "b"), variants)
    except Exception as e:
        print("ERROR: the simulator cannot be built from the current tree: %s" % e)
        return 2
    for x in warns: print("note: " + x)
    tb = time.time() - t0
    known = known_lines(pid)
    kf = os.path.join(work, "known.tsv")
    with open(kf, "w") as f:
        for k in known: f.write("\t".join(k[:3]) + "\n")
    procs, stop, found, errors = {}, [False], [], []

    def worker(wi, tasks):
        for n, (ji, k, t) in enumerate(tasks):
            if stop[0]: return
            v, sc, cfg, _ = jobs[ji]
            out = os.path.join(work, "o%d_%d" % (ji, k))
            cmd = [os.path.join(work, "b", v, "simrun"), "explore", "--check", pid, "--variant", v, "--scenarios", sc, "--cfg", cfg,
                   "--seed", str(seed * 1000 + ji), "--worker", str(k), "--time", "%.2f" % t, "--runs", "1000000000", "--out", out,
                   "--min", "45" if thorough else "25"]
            if known: cmd += ["--known", kf]
            if pid in CLASSES: cmd += ["--classes", CLASSES[pid]]
            with open(out + ".log", "w") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
                procs[wi] = p
                try: rc = p.wait(timeout=t + 180)
                except subprocess.TimeoutExpired: p.kill(); rc = p.wait(); rc = 99
                procs.pop(wi, None)
            if stop[0] and rc < 0: return
            if rc == 1 and os.path.exists(out + ".replay"):
                # a violation counts when fresh processes reproduce it exactly; otherwise the search goes on
                outs = [subprocess.run([os.path.join(work, "b", v, "simrun"), "replay", out + ".replay"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
                if all(o.returncode == 1 and "REPRODUCED" in o.stdout for o in outs): found.append((out + ".replay", outs[0].stdout)); stop[0] = True
                else: errors.append("a violation did not reproduce in a fresh process: %s\n%s\n%s" % (out, outs[0].stdout[-800:], open(out + ".replay").read()[:400]))
            elif rc != 0: errors.append("%s rc=%d: %s" % (" ".join(cmd), rc, open(out + ".log").read()[-1500:]))    # the other workers go on: a violation they find goes first
            if stop[0]:
                # one more chance for runs that are minimising a violation of their own
                for q in list(procs.values()):
                    try: q.send_signal(signal.SIGTERM)
                    except OSError: pass

    plan = schedule(jobs, secs)
    te = time.time()
    with ThreadPoolExecutor(len(plan)) as ex: list(ex.map(lambda a: worker(*a), enumerate(plan)))
    te = time.time() - te
    violations = 0
    rc = 0
    if found:
        rp, rout = found[0]
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        dst = os.path.join(V, "replays", "%s-%d.replay" % (pid, seed))
        shutil.copyfile(rp, dst)
        full = rp.replace(".replay", ".full.replay")
        if os.path.exists(full): shutil.copyfile(full, dst.replace(".replay", ".full.replay"))
        print(open(rp[:-7] + ".log").read()[-3000:].strip())
        print(rout[-1500:].strip())
        print("replay: tools/replay %s" % dst)
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        violations += 1; rc = 1
    if rc == 0 and errors:
        for e in errors: print("ERROR: " + e)
        rc = 2
    evidence(pid, thorough, seed, jobs, work, tb, te, t0, violations, known, warns)
    return rc


def evidence(pid, thorough, seed, jobs, work, tb, te, t0, violations, known, warns):
    tot = {"runs": 0, "steps": 0, "ops": 0, "switches": 0, "nontrivial": 0, "selfchecks": 0, "skipped_known": 0, "other_class": 0}
    faults, frun, probes, khits, samples, per, maxop, cpu = {}, {}, {}, {}, [], {}, 0, 0.0
    distinct = set(); simtime = 0
    for f in sorted(glob.glob(os.path.join(work, "o*.json"))):
        try: d = json.load(open(f))
        except ValueError: continue
        ji = int(os.path.basename(f)[1:].split("_")[0])
        for k in tot: tot[k] += d.get(k, 0)
        for k, x in d["faults"].items(): faults[k] = faults.get(k, 0) + x
        for k, x in d["fault_runs"].items(): frun[k] = frun.get(k, 0) + x
        for k, x in d["probes"].items(): probes[k] = max(probes.get(k, 0), x) if k.startswith("max_") else probes.get(k, 0) + x
        for k, x in d.get("known", {}).items(): khits[k] = khits.get(k, 0) + x
        name = "%s/%s %s" % (jobs[ji][0], jobs[ji][1], jobs[ji][2])
        p = per.setdefault(name, {"runs": 0, "cpu_s": 0.0}); p["runs"] += d["runs"]; p["cpu_s"] = round(p["cpu_s"] + d["wall"], 1)
        maxop = max(maxop, d["maxop"]); cpu += d["wall"]
        if len(samples) < 6:
            for s in d["samples"][:1]: s["job"] = name; samples.append(s)
        h = f[:-5] + ".ih"
        if os.path.exists(h):
            b = open(h, "rb").read()
            for i in range(0, len(b) - 7, 8): distinct.add(b[i:i + 8])
    for k in known:
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (pid, k[3], khits.get("\t".join(k[:3]), 0)))
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(distinct),
            "rule": RULES["common"] + " " + RULES.get(pid, ""),
            "samples": samples,
            "simulated_runs": tot["runs"], "seeds_per_hour": int(tot["runs"] / max(te, 0.1) * 3600),
            "simulated_steps": tot["steps"], "simulated_time": "%d scheduler steps (one step = one shared-memory access, atomic instruction, fence or blocking call of one thread; the virtual clock advances with them)" % tot["steps"],
            "operations_on_objects": tot["ops"], "thread_switches": tot["switches"],
            "distinct_interleavings": len(distinct), "distinct_measure": "64-bit hash of the sequence of (thread, code site) of every run with at least two threads and one switch inside an operation",
            "runs_with_contention": tot["nontrivial"],
            "determinism_selfchecks": tot["selfchecks"], "longest_operation_steps": maxop,
            "faults_injected": faults, "runs_with_fault": frun, "probes": probes, "jobs": per,
            "skipped_known": tot["skipped_known"], "violations_of_other_properties_seen": tot["other_class"],
            "real_code": "every C file of libconcurrent/primitives and libconcurrent/concurrent of the current tree except bench_args.c, with its inline headers, compiled to LLVM IR",
            "stubbed": "pthreads, ucontext, sched affinity, libnuma, sysconf, clocks, malloc/free and stdio under the library (the simulator's machine); workloads are the harness's own",
            "cpu_s": round(cpu, 1), "build_s": round(tb, 1), "explore_s": round(te, 1), "workers": NW,
        },
        "assumptions": [
            "sampling, not enumeration: a clean batch is evidence, not proof",
            "x86-64 total store order: stores may become visible late, in order; other reorderings are not modelled except those the compiler makes at -O1",
            "seeds depend only on VERIF_SEED; how many of them fit in the time depends on the machine",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    if warns: ev["coverage"]["notes"] = warns[:20]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
    print("%s: %d runs, %d distinct interleavings, %d operations, %d steps; build %.1f s, exploration %.1f s%s" %
          (pid, tot["runs"], len(distinct), tot["ops"], tot["steps"], tb, te, "" if violations else "; no violation"))


if __name__ == "__main__":
    sys.exit(main())
