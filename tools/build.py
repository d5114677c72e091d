#!/usr/bin/env python3
"""Builds the simulator for the current working tree of the repository.

usage: build.py OUTDIR VARIANT...      -> OUTDIR/VARIANT/simrun (+ .sites)
Every C file of the library (and the C adapters) is compiled to LLVM IR, rewritten by
sim/transform.py and linked with the runtime and the scenarios.
"""
import os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
LIB = os.path.join(REPO, "libconcurrent")
SIM = os.path.join(V, "sim")
sys.path.insert(0, SIM)
sys.dont_write_bytecode = True
import transform

# variant -> (config.h: defines to add, defines to drop, command-line defines)
VARIANTS = {
    "def":    ([], [], []),
    "dbg":    ([], [], ["DEBUG"]),
    "nonuma": ([], ["SYNCH_NUMA_SUPPORT"], []),
    "norec":  (["SYNCH_POOL_NODE_RECYCLING_DISABLE"], [], []),
    "emu":    (["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"], [], []),
    "emudbg": (["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"], [], ["DEBUG"]),
    "nobo":   (["SYNCH_DISABLE_BACKOFF"], ["SYNCH_COMPACT_ALLOCATION"], []),
    "ring":   ([], [], ["RING_POW=2"]),
    "ring1":  (["SYNCH_EMULATE_FAA"], [], ["RING_POW=1", "DEBUG"]),
    # what a machine other than x86 gets: the sources with the tests for x86 answered no
    "weak":   ([], [], []),
    # the code gcc makes of the library at the optimisation level of the Makefile, see one_gcc()
    "gcc":    ([], [], []),
    "gccemu": (["SYNCH_EMULATE_FAA", "SYNCH_EMULATE_SWAP"], [], []),
    "gccring": ([], ["SYNCH_NUMA_SUPPORT"], ["RING_POW=2"]),
}
CFLAGS = ["-std=gnu89", "-O1", "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-printf",
          "-gline-tables-only", "-w", "-D_GNU_SOURCE"]
CXX = ["-std=c++17", "-O2", "-g1", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-strict-aliasing"]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def c_sources():
    out = []
    for d in ("primitives", "concurrent"):
        p = os.path.join(LIB, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".c") and f != "bench_args.c":
                out.append(os.path.join(p, f))
    for f in sorted(os.listdir(SIM)):
        if f.startswith("adapt") and f.endswith(".c"):
            out.append(os.path.join(SIM, f))
    return out


def no_x86(vd):
    """A copy of the library in which the preprocessor takes the machine for something other than an x86."""
    lib = os.path.join(vd, "lib")
    for d in ("primitives", "concurrent", "includes", "."):
        p = os.path.join(LIB, d)
        os.makedirs(os.path.join(lib, d), exist_ok=True)
        for f in sorted(os.listdir(p)):
            if f.endswith((".c", ".h")) and os.path.isfile(os.path.join(p, f)):
                s = open(os.path.join(p, f), errors="surrogateescape").read()
                s = re.sub(r"\bdefined *\(? *(__amd64__|__amd64|__x86_64__|__x86_64|__i386__)\b *\)?", "0", s)
                s = re.sub(r"^([ \t]*#[ \t]*)ifdef[ \t]+(__amd64__|__amd64|__x86_64__|__x86_64|__i386__)\b", r"\1if 0", s, flags=re.M)
                s = re.sub(r"^([ \t]*#[ \t]*)ifndef[ \t]+(__amd64__|__amd64|__x86_64__|__x86_64|__i386__)\b", r"\1if 1", s, flags=re.M)
                open(os.path.join(lib, d, f), "w", errors="surrogateescape").write(s)
    return lib


def gen_config(variant, d):
    add, drop, _ = VARIANTS[variant]
    s = open(os.path.join(LIB, "config.h")).read()
    for x in drop:
        s = re.sub(r"^([ \t]*#[ \t]*define[ \t]+%s\b)" % x, r"//\1", s, flags=re.M)
    i = s.rindex("#endif")
    s = s[:i] + "".join("#ifndef %s\n#define %s\n#endif\n" % (x, x) for x in add) + s[i:]
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.h"), "w").write(s)


def one(src, idx, variant, vd):
    lib = LIB
    if variant == "weak":
        lib = os.path.join(vd, "lib")
        if src.startswith(LIB + os.sep): src = os.path.join(lib, os.path.relpath(src, LIB))
    b = os.path.join(vd, "%02d_%s" % (idx, os.path.basename(src)[:-2]))
    cmd = (["clang"] + CFLAGS + ["-D" + x for x in VARIANTS[variant][2]] +
        ["-I" + os.path.join(vd, "cfg"), "-I" + os.path.join(lib, "includes"), "-I" + lib, "-I" + SIM, "-S", "-emit-llvm", src, "-o", b + ".ll"])
    try: run(cmd)
    except RuntimeError:
        # an internal field that only the DEBUG counters need was renamed: go on without them
        if "adapt" not in os.path.basename(src): raise
        run(cmd + ["-DAD_NO_COUNTERS"])
    warn = run([sys.executable, os.path.join(SIM, "transform.py"), b + ".ll", b + ".t.ll", b + ".sites", str((idx + 1) * 4096)])
    run(["clang", "-c", "-O1", "-Xclang", "-disable-llvm-passes", "-femulated-tls", "-w", b + ".t.ll", "-o", b + ".o"])
    return b, warn


GCC = ["-std=gnu89", "-O3", "-ftree-vectorize", "-finline-functions", "-fno-pie", "-mno-red-zone", "-fno-common", "-fno-zero-initialized-in-bss",
       "-fcf-protection=none", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-g1", "-w", "-D_GNU_SOURCE",
       "-fsanitize=thread", "-fsanitize-coverage=trace-pc"]
ASM = [(r"^\s*pause\s*;?\s*$", "call sim_g_pause"), (r"^\s*mfence\s*;?\s*$", "call sim_g_fence"), (r"^\s*cpuid\s*;?\s*$", "call sim_g_cpuid")]


def one_gcc(src, idx, variant, vd):
    """gcc's own accesses announced to the simulator: the thread sanitizer's calls (before every access that is left after
    optimisation, in place of every atomic builtin), calls in place of pause, mfence and cpuid and before cmpxchg16b,
    renamed operating-system calls. The sanitizer's library is not linked, sim/rt.cpp answers the calls."""
    b = os.path.join(vd, "%02d_%s" % (idx, os.path.basename(src)[:-2]))
    cmd = (["gcc"] + GCC + ["-D" + x for x in VARIANTS[variant][2]] +
        ["-I" + os.path.join(vd, "cfg"), "-I" + os.path.join(LIB, "includes"), "-I" + LIB, "-I" + SIM, "-S", src, "-o", b + ".s"])
    try: run(cmd)
    except RuntimeError:
        if "adapt" not in os.path.basename(src): raise
        run(cmd + ["-DAD_NO_COUNTERS"])
    out, app = [], False
    for l in open(b + ".s"):
        l = l.rstrip("\n")
        if l.startswith("#APP"): app = True
        if l.startswith("#NO_APP"): app = False
        if app:
            for pat, new in ASM:
                if re.match(pat, l): l = "\t" + new; break
            else:
                if "cmpxchg16b" in l and "lock" in l: out.append("\tcall sim_g_asm16")
                elif "cpuid" in l: l = re.sub(r"\bcpuid\b", "call sim_g_cpuid", l)
        if re.match(r"^\s*\.(data|bss)\s*$", l): l = '\t.section simdata,"aw"'
        elif re.match(r"^\s*\.section\s+\.(data|bss)\b", l): l = '\t.section simdata,"aw"'
        out.append(l)
    open(b + ".t.s", "w").write("\n".join(out) + "\n")
    run(["gcc", "-c", b + ".t.s", "-o", b + ".0.o"])
    run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (x, x) for x in sorted(transform.EXTERN)] + [b + ".0.o", b + ".o"])
    open(b + ".sites", "w").close()
    return b, ""


def build(outdir, variants):
    os.makedirs(outdir, exist_ok=True)
    srcs = c_sources()
    cxx = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".cpp")]
    ex = ThreadPoolExecutor(os.cpu_count() or 4)
    jobs, cjobs = {}, []
    for v in variants:
        vd = os.path.join(outdir, v)
        if os.path.isdir(vd): shutil.rmtree(vd)
        gen_config(v, os.path.join(vd, "cfg"))
        if v == "weak": no_x86(vd)
    for c in cxx:
        o = os.path.join(outdir, os.path.basename(c)[:-4] + ".o")
        deps = [c] + [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".h")] + [os.path.abspath(__file__)]
        if os.path.exists(o) and all(os.path.getmtime(o) > os.path.getmtime(d) for d in deps):
            cjobs.append((o, None)); continue
        cjobs.append((o, ex.submit(run, ["g++"] + CXX + ["-I" + SIM, "-c", c, "-o", o])))
    for v in variants:
        jobs[v] = [ex.submit(one_gcc if v.startswith("gcc") else one, s, i, v, os.path.join(outdir, v)) for i, s in enumerate(srcs)]
    cobjs = []
    for o, j in cjobs:
        if j: j.result()
        cobjs.append(o)
    warns = set()
    for v in variants:
        objs = []
        with open(os.path.join(outdir, v, "simrun.sites"), "w") as sf:
            for j in jobs[v]:
                b, w = j.result()
                objs.append(b + ".o"); sf.write(open(b + ".sites").read())
                for l in w.split("\n"):
                    if l.strip(): warns.add(l)
        run(["g++", "-no-pie", "-o", os.path.join(outdir, v, "simrun")] + cobjs + objs + ["-lm"])
        if v.startswith("gcc"): open(os.path.join(outdir, v, "simrun.syms"), "w").write(run(["nm", "-n", os.path.join(outdir, v, "simrun")]))
        for f in os.listdir(os.path.join(outdir, v)):
            if f[:2].isdigit(): os.unlink(os.path.join(outdir, v, f))
    ex.shutdown()
    return sorted(warns)


if __name__ == "__main__":
    for w in build(sys.argv[1], sys.argv[2:] or ["def"]): print(w)
