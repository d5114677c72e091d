#!/usr/bin/env python3
"""Rewrites LLVM IR text (clang 18, opaque pointers) so that every memory access, atomic
instruction, fence, pause and operating-system call of the code under test goes through the
simulator runtime (rt.cpp).  Nothing in the code's own logic is changed.

usage: transform.py IN.ll OUT.ll SITES.txt SITEBASE
"""
import re, sys

EXTERN = {  # operating system / C library -> simulated environment
    "pthread_create", "pthread_join", "pthread_setconcurrency", "pthread_self", "pthread_exit",
    "pthread_yield", "pthread_detach", "pthread_setaffinity_np", "pthread_attr_init",
    "sched_yield", "sched_setaffinity", "sched_getcpu",
    "sysconf", "get_nprocs", "numa_available", "numa_num_task_nodes", "numa_num_configured_nodes",
    "numa_max_node", "numa_node_of_cpu", "numa_alloc_local", "numa_alloc", "numa_alloc_onnode",
    "numa_free", "malloc", "calloc", "realloc", "memalign", "aligned_alloc", "posix_memalign", "free", "clock_gettime",
    "gettimeofday", "time", "usleep", "nanosleep", "sleep", "perror", "exit", "abort", "_exit",
    "printf", "fprintf", "fwrite", "fputs", "fputc", "puts", "putchar", "fflush",
    "memcpy", "memmove", "memset", "__atomic_compare_exchange_16",
}
INT = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4}
RMW = {n: i for i, n in enumerate("xchg add sub and or xor nand max min umax umin".split())}


def split_top(s):
    out, depth, cur, q = [], 0, "", False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in "([{<": depth += 1
            elif c in ")]}>": depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += c
    out.append(cur.strip())
    return out


class T:
    def __init__(self, text, base):
        self.lines = text.split("\n")
        self.base = base
        self.tmp = 0
        self.sites = []          # names, index = id - base
        self.warn = []
        self.meta = {}
        for l in self.lines:
            m = re.match(r"^(![0-9]+) = (.*)$", l)
            if m: self.meta[m.group(1)] = m.group(2)
        self.cache = {}
        self.src = ""
        self.fn = "?"

    def mfield(self, s, f):
        m = re.search(r"\b%s: (![0-9]+|\"[^\"]*\"|-?[0-9]+)" % f, s)
        return m.group(1) if m else None

    def scope_name(self, ref):
        seen = 0
        while ref and seen < 30:
            s = self.meta.get(ref, "")
            if "DISubprogram" in s:
                f = self.mfield(s, "file")
                fs = self.meta.get(f, "") if f else ""
                return (self.mfield(s, "name") or '"?"').strip('"'), (self.mfield(fs, "filename") or '"?"').strip('"')
            ref = self.mfield(s, "scope"); seen += 1
        return self.fn, "?"

    def site(self, line):
        m = re.search(r"!dbg (![0-9]+)", line)
        name = self.fn
        if m:
            s = self.meta.get(m.group(1), "")
            ln = self.mfield(s, "line") or "0"
            fn, fi = self.scope_name(self.mfield(s, "scope"))
            name = "%s:%s (%s)" % (fi.split("libconcurrent/")[-1], ln, fn)
        self.sites.append(name)
        return self.base + len(self.sites) - 1

    def new(self):
        self.tmp += 1
        return "%%sim.t%d" % self.tmp

    def dbg(self, line):
        m = re.search(r", (!dbg ![0-9]+)", line)
        return ", " + m.group(1) if m else ""

    def run(self):
        out, i, n = [], 0, len(self.lines)
        infn = False
        headers = set()
        defined_here = set(re.findall(r"^define [^@]*@\"?([\w.$]+)\"?\(", "\n".join(self.lines), re.M))
        while i < n:
            l = self.lines[i]
            if l.startswith("define "):
                infn = True
                self.fn = re.search(r"@\"?([\w.$]+)", l).group(1)
                headers = self.loop_headers(i)
                out.append(re.sub(r"\blocal_unnamed_addr\b", "", l)); i += 1; continue
            if infn and l.startswith("}"):
                infn = False
                out.append(l); i += 1; continue
            if infn:
                m = re.match(r"^([\w.$\"-]+):", l)
                if m:
                    out.append(l); i += 1
                    while i < n and re.match(r"^\s+%\S+ = phi ", self.lines[i]):
                        out.append(self.ren(self.lines[i])); i += 1
                    if m.group(1).strip('"') in headers:
                        out.append("  call void @sim_tick()" + self.dbg_any(i))
                    continue
                out.extend(self.inst(l)); i += 1; continue
            # module level
            if re.match(r"^declare .*@llvm\.(memcpy|memset|memmove)\.", l):
                i += 1; continue
            m = re.match(r"^declare .*@([\w.$]+)\(", l)
            if m and m.group(1) in EXTERN:
                sys_name = m.group(1)
                l = re.sub(r"@%s\(" % re.escape(sys_name), "@sim_%s(" % sys_name, l)
                l = re.sub(r"\) .*$", ")", l)
                l = re.sub(r"(noalias|nocapture|noundef|readonly|writeonly|readnone|nonnull|allocptr) ?", "", l)
                out.append(l); i += 1; continue
            m = re.match(r"^@\S+ = (?!external)(.*?)\bglobal\b", l)
            if m and "thread_local" not in l and "available_externally" not in l and "llvm." not in l.split("=")[0]:
                k = l.rfind(", align")
                if k < 0: k = len(l)
                if ', section "' not in l:
                    l = l[:k] + ', section "simdata"' + l[k:]
                l = re.sub(r"\bcommon\b ", "", l)
            out.append(self.ren(l)); i += 1
        out.append(DECLS)
        return "\n".join(out)

    def dbg_any(self, i):
        # debug location of the next instruction, required inside functions with a DISubprogram
        for k in range(i, min(i + 8, len(self.lines))):
            m = re.search(r", (!dbg ![0-9]+)", self.lines[k])
            if m: return ", " + m.group(1)
            if self.lines[k].startswith("}"): break
        m = None
        for k in range(i, 0, -1):
            if self.lines[k].startswith("define "):
                break
            m = re.search(r", (!dbg ![0-9]+)", self.lines[k])
            if m: return ", " + m.group(1)
        return ""

    def loop_headers(self, i):
        order, heads, k = {}, set(), i + 1
        body = []
        while not self.lines[k].startswith("}"):
            body.append(self.lines[k]); k += 1
        for idx, l in enumerate(body):
            m = re.match(r"^([\w.$\"-]+):", l)
            if m: order[m.group(1).strip('"')] = idx
        for idx, l in enumerate(body):
            for t in re.findall(r"label %\"?([\w.$-]+)\"?", l):
                if t in order and order[t] <= idx: heads.add(t)
        return heads

    def ren(self, l):
        def f(m):
            return "@sim_" + m.group(1) if m.group(1) in EXTERN else m.group(0)
        return re.sub(r"@([A-Za-z_]\w*)\b(?!\.)", f, l)

    def inst(self, l):
        d = self.dbg(l)
        s = l.strip()
        # ---- load
        m = re.match(r"^(%\S+) = load (atomic )?(volatile )?(.*)$", s)
        if m:
            parts = split_top(m.group(4))
            ty, opnd = parts[0], parts[1]
            seq = bool(m.group(2))
            opnd = re.sub(r"( syncscope\(\S+\))? (unordered|monotonic|acquire|seq_cst)$", "", opnd)
            if ty in INT:
                sid = self.site(l)
                if ty == "i1":
                    t = self.new()
                    return ["  %s = call i8 @sim_load_i8(%s, i32 %d)%s" % (t, self.ren(opnd), sid, d),
                            "  %s = trunc i8 %s to i1%s" % (m.group(1), t, d)]
                return ["  %s = call %s @sim_load_%s(%s, i32 %d)%s" % (m.group(1), ty, ty, self.ren(opnd), sid, d)]
            self.warn.append(s)
            return ["  call void @sim_touch(%s, i32 0, i32 %d)%s" % (self.ren(opnd), self.site(l), d), self.ren(l)]
        # ---- store
        m = re.match(r"^store (atomic )?(volatile )?(.*)$", s)
        if m:
            parts = split_top(m.group(3))
            val, opnd = parts[0], parts[1]
            order = re.search(r" (unordered|monotonic|release|seq_cst)$", opnd)
            opnd = re.sub(r"( syncscope\(\S+\))? (unordered|monotonic|release|seq_cst)$", "", opnd)
            ty, v = val.split(" ", 1)
            if ty in INT:
                sid = self.site(l)
                res = []
                if ty == "i1":
                    if v in ("true", "false"): v = "1" if v == "true" else "0"
                    else:
                        t = self.new()
                        res.append("  %s = zext i1 %s to i8%s" % (t, v, d)); v = t
                    ty = "i8"
                res.append("  call void @sim_store_%s(%s, %s %s, i32 %d)%s" % (ty, self.ren(opnd), ty, self.ren(v), sid, d))
                if order and order.group(1) == "seq_cst":
                    res.append("  call void @sim_fence(i32 %d)%s" % (sid, d))
                return res
            self.warn.append(s)
            return ["  call void @sim_touch(%s, i32 1, i32 %d)%s" % (self.ren(opnd), self.site(l), d), self.ren(l)]
        # ---- cmpxchg
        m = re.match(r"^(%\S+) = cmpxchg (weak )?(volatile )?(.*)$", s)
        if m:
            parts = split_top(m.group(4))
            opnd, cmpv = parts[0], parts[1]
            newv = re.match(r"^(\S+ .+?)(?: syncscope\(\S+\))? (?:unordered|monotonic|acquire|release|acq_rel|seq_cst) \S+$", parts[2]).group(1)
            ty, cv = cmpv.split(" ", 1)
            if ty in INT:
                sid = self.site(l)
                a, b, c = self.new(), self.new(), self.new()
                return ["  %s = call %s @sim_cas_%s(%s, %s, %s, i32 %d)%s" % (a, ty, ty, self.ren(opnd), self.ren(cmpv), self.ren(newv), sid, d),
                        "  %s = icmp eq %s %s, %s%s" % (b, ty, a, self.ren(cv), d),
                        "  %s = insertvalue { %s, i1 } undef, %s %s, 0%s" % (c, ty, ty, a, d),
                        "  %s = insertvalue { %s, i1 } %s, i1 %s, 1%s" % (m.group(1), ty, c, b, d)]
            self.warn.append(s)
            return ["  call void @sim_touch(%s, i32 2, i32 %d)%s" % (self.ren(opnd), self.site(l), d), self.ren(l)]
        # ---- atomicrmw
        m = re.match(r"^(%\S+) = atomicrmw (volatile )?(\w+) (.*)$", s)
        if m:
            parts = split_top(m.group(4))
            opnd = parts[0]
            val = re.match(r"^(\S+ .+?)(?: syncscope\(\S+\))? (?:unordered|monotonic|acquire|release|acq_rel|seq_cst)$", parts[1]).group(1)
            ty = val.split(" ", 1)[0]
            if ty in INT and m.group(3) in RMW:
                return ["  %s = call %s @sim_rmw_%s(i32 %d, %s, %s, i32 %d)%s" % (
                    m.group(1), ty, ty, RMW[m.group(3)], self.ren(opnd), self.ren(val), self.site(l), d)]
            self.warn.append(s)
            return ["  call void @sim_touch(%s, i32 2, i32 %d)%s" % (self.ren(opnd), self.site(l), d), self.ren(l)]
        if re.match(r"^fence ", s):
            if "singlethread" in s: return [l]
            return ["  call void @sim_fence(i32 %d)%s" % (self.site(l), d)]
        # ---- inline assembly
        if " asm " in s and "call " in s:
            return self.asm(l, s, d)
        # ---- memory intrinsics
        m = re.search(r"@llvm\.(memcpy|memmove|memset)\.[\w.]*\((.*)\)", s)
        if m and "call " in s:
            a = split_top(re.sub(r"\)[^)]*$", "", s[s.index("(", s.index("@llvm.")) + 1:] + ")"))
            clean = [re.sub(r"\b(noundef|nonnull|noalias|nocapture|readonly|writeonly|zeroext|signext|align \d+|dereferenceable(_or_null)?\(\d+\)) ?", "", x) for x in a]
            clean = [re.sub(r"\s+", " ", x).strip() for x in clean]
            ln = clean[2]
            pre = []
            if ln.startswith("i32 "):
                t = self.new(); pre.append("  %s = zext i32 %s to i64%s" % (t, ln[4:], d)); ln = "i64 " + t
            fn = "memset_" if m.group(1) == "memset" else "memcpy_"
            return pre + ["  call void @sim_%s(%s, %s, %s, i32 %d)%s" % (fn, self.ren(clean[0]), self.ren(clean[1]), ln, self.site(l), d)]
        # ---- calls that leave the instrumented world
        m = re.search(r"\bcall .*?@\"?([\w.$]+)\"?\(", s)
        if m:
            name = m.group(1)
            if name in EXTERN:
                l2 = re.sub(r"\b(tail|notail|musttail) call", "call", self.ren(l))
                l2 = re.sub(r"\) #\d+", ")", l2)
                return ["  call void @sim_syscall(i32 %d)%s" % (self.site(l), d), l2]
            if not name.startswith("llvm.") and re.search(r"^(_?setjmp|_?longjmp|__sigsetjmp|siglongjmp|getcontext|makecontext|swapcontext|setcontext|strcmp|bcmp|memcmp|strncmp|strlen)$", name):
                return ["  call void @sim_flush()%s" % d, l]
        return [self.ren(l)]

    def asm(self, l, s, d):
        m = re.search(r'asm (?:sideeffect )?(?:alignstack )?(?:inteldialect )?"((?:[^"])*)"', s)
        code = m.group(1) if m else ""
        if code == "": return [l]                      # compiler barrier
        if re.match(r"^mfence", code): return ["  call void @sim_fence(i32 %d)%s" % (self.site(l), d)]
        if re.match(r"^(lfence|sfence)", code): return ["  call void @sim_lightfence(i32 %d)%s" % (self.site(l), d)]
        if re.match(r"^(pause|rep; ?nop)", code): return ["  call void @sim_pause(i32 %d)%s" % (self.site(l), d)]
        ptrs = re.findall(r"ptr (?:\w+ )*elementtype\([^)]*\) (%[\w.]+|@[\w.$]+)", s)
        if "cpuid" in code and len(ptrs) >= 3:
            return ["  call void @sim_cpuid(ptr %s, ptr %s, ptr %s)%s" % (ptrs[0], ptrs[1], ptrs[2], d)]
        if re.search(r"\brdtscp?\b", code):
            self.warn.append("rdtsc: " + s)
        out = []
        if ptrs: 
            # a read-modify-write instruction without its lock prefix (xchg needs none) is a read and a later write
            torn = re.search(r"\b(cmpxchg|xadd|bt[src])", code) and not re.search(r"\block\b", code)
            out.append("  call void @sim_asm%s(ptr %s, i32 %d, i32 %d)%s" % ("_torn" if torn else "", ptrs[0], 16 if "16b" in code else 8, self.site(l), d))
        else:
            out.append("  call void @sim_fence(i32 %d)%s" % (self.site(l), d))
        return out + [l]


DECLS = "\n".join(
    ["declare %s @sim_load_%s(ptr, i32)" % (t, t) for t in INT if t != "i1"] +
    ["declare void @sim_store_%s(ptr, %s, i32)" % (t, t) for t in INT if t != "i1"] +
    ["declare %s @sim_cas_%s(ptr, %s, %s, i32)" % (t, t, t, t) for t in ("i8", "i16", "i32", "i64", "ptr")] +
    ["declare %s @sim_rmw_%s(i32, ptr, %s, i32)" % (t, t, t) for t in ("i8", "i16", "i32", "i64", "ptr")] +
    ["declare void @sim_touch(ptr, i32, i32)", "declare void @sim_fence(i32)", "declare void @sim_lightfence(i32)",
     "declare void @sim_pause(i32)", "declare void @sim_cpuid(ptr, ptr, ptr)", "declare void @sim_asm(ptr, i32, i32)", "declare void @sim_asm_torn(ptr, i32, i32)",
     "declare void @sim_tick()", "declare void @sim_flush()", "declare void @sim_syscall(i32)",
     "declare void @sim_memcpy_(ptr, ptr, i64, i32)", "declare void @sim_memset_(ptr, i8, i64, i32)"])


def main():
    src, dst, sites, base = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    t = T(open(src).read(), base)
    out = t.run()
    open(dst, "w").write(out)
    with open(sites, "w") as f:
        for i, s in enumerate(t.sites): f.write("%d\t%s\n" % (base + i, s))
    for w in t.warn: sys.stderr.write("transform: left as is: %s\n" % w)


if __name__ == "__main__":
    main()
