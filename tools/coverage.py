#!/usr/bin/env python3
"""Which basic blocks of the library the simulations reach (development aid, uses the gcc variants).

usage: coverage.py SECONDS   runs every gcc job of tools/jobs.py and some more, prints the source lines never reached
"""
import os, re, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import jobs, build
sec = sys.argv[1] if len(sys.argv) > 1 else "5"
B = os.path.join(V, "build")
work = collections.OrderedDict()
for c, js in jobs.JOBS.items():
    for v, s, cfg, w in js: work[("gccring" if v.startswith("ring") else "gcc", s, cfg)] = 1
from concurrent.futures import ThreadPoolExecutor
build.build(B, ["gcc", "gccring"])
hit = {"gcc": set(), "gccring": set()}
def one(k):
    v, s, cfg = k
    o = "/tmp/cov.%s.%s.%s" % (v, s, re.sub(r"\W", "_", cfg))
    subprocess.run([os.path.join(B, v, "simrun"), "explore", "--check", "COV", "--variant", v, "--scenarios", s, "--cfg", cfg, "--seed", "5", "--worker", "0", "--time", sec, "--out", o],
                   env=dict(os.environ, SIM_COV=o + ".cov"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = set(int(l, 16) for l in open(o + ".cov")) if os.path.exists(o + ".cov") else set()
    for e in (".cov", ".json", ".ih", ".replay", ".full.replay"):
        if os.path.exists(o + e): os.unlink(o + e)
    return v, r
with ThreadPoolExecutor(8) as ex:
    for v, r in ex.map(one, list(work)): hit[v] |= r
lines = {}
for v in hit:
    exe = os.path.join(B, v, "simrun")
    d = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    pcs = []
    for i, l in enumerate(d):
        if "__sanitizer_cov_trace_pc>" in l and ("call" in l or "jmp" in l) and i + 1 < len(d):
            m = re.match(r"\s*([0-9a-f]+):", d[i + 1])
            if m: pcs.append(int(m.group(1), 16))
    # the line of a block: of the first instruction after the call that belongs to the library
    a = subprocess.run(["addr2line", "-e", exe, "-f"] + [hex(p) for p in pcs], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    for p, fn, loc in zip(pcs, a[0::2], a[1::2]):
        m = re.search(r"libconcurrent/(\S+):(\d+)", loc)
        if not m: continue
        k = (m.group(1), int(m.group(2)), fn)
        lines[k] = lines.get(k, False) or (p & 0xffffff) in hit[v]
tot = collections.Counter(); cov = collections.Counter()
for k, h in sorted(lines.items()):
    tot[k[0]] += 1; cov[k[0]] += h
    if not h: print("never reached: %s:%d (%s)" % k)
for f in sorted(tot): print("%-36s %d of %d blocks' lines" % (f, cov[f], tot[f]))
