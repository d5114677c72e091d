// Linearizability of short histories: Wing & Gong's search with Lowe's memoisation over
// (set of linearized operations, state of the sequential object).
#include "rt.h"
#include "adapt.h"
#include <algorithm>
#include <unordered_set>
#include <string.h>
#include <stdlib.h>

namespace {
struct St { std::vector<i64> v; std::vector<std::pair<i64, i64>> m; };
struct Key { std::vector<u64> k; bool operator==(const Key &o) const { return k == o.k; } };
struct KH { size_t operator()(const Key &k) const { u64 h = 7; for (u64 x : k.k) h = mix2(h, x); return h; } };

struct L {
    int model; i64 empty; const std::vector<LinOp> &h; u64 limit, states = 0;
    std::vector<char> done; int ndone = 0, need = 0; std::unordered_set<Key, KH> seen; St st; bool giveup = false;
    std::vector<int> byinv, order;              // order: by removal time of the inserted value
    bool distinct = false;
    std::vector<u64> ri, rr; int pend_rem = 0;  // of the removal of an inserted value: invocation, response (distinct values)
    // an element that has to leave before one that lies above it can: no order follows from here
    bool buried(int w) {
        if (!distinct) return false;
        // a removal that found nothing is still to come, and the element cannot have left by then
        if (rr[w] != ~0ULL || pend_rem == 0) for (int e : empties) if (!done[e] && (rr[w] == ~0ULL || ri[w] > h[e].res)) return true;
        if (model != M_STACK) return false;
        for (i64 x : st.v) { int b = ins_of(x); if (b < 0 || rr[b] == ~0ULL) continue; if (rr[w] == ~0ULL ? pend_rem == 0 : rr[b] < ri[w]) return true; }
        return false;
    }
    std::vector<int> empties;                   // removals that found nothing
    std::map<i64, int> insmap;
    int ins_of(i64 v) { auto it = insmap.find(v); return it == insmap.end() ? -1 : it->second; }
    // Moves that never need to be undone: a completed read-only operation that fits the current state, and
    // (values distinct) a completed removal of the front / top element. Returns the operation or -1.
    int free_move(u64 minres) {
        for (int i : byinv) {
            const LinOp &o = h[i];
            if (o.inv > minres) break;
            if (done[i] || !o.done) continue;
            if (model == M_QUEUE || model == M_STACK) {
                if (o.kind != L_REM) continue;
                if (o.ret == empty) { if (st.v.empty()) return i; continue; }
                if (distinct && !st.v.empty() && o.ret == (model == M_QUEUE ? st.v.front() : st.v.back())) return i;
            } else if (model == M_SET && o.kind == L_FIND) {
                auto it = std::lower_bound(st.v.begin(), st.v.end(), o.a);
                if ((o.ret != 0) == (it != st.v.end() && *it == o.a)) return i;
            }
        }
        return -1;
    }
    // applies op; returns false if the recorded result is impossible in this state
    bool apply(const LinOp &o, St &s) {
        switch (model) {
            case M_QUEUE:
                if (o.kind == L_INS) { s.v.push_back(o.a); return true; }
                if (s.v.empty()) return !o.done || o.ret == empty;
                if (o.done && o.ret != s.v.front()) return false;
                s.v.erase(s.v.begin()); return true;
            case M_STACK:
                if (o.kind == L_INS) { s.v.push_back(o.a); return true; }
                if (s.v.empty()) return !o.done || o.ret == empty;
                if (o.done && o.ret != s.v.back()) return false;
                s.v.pop_back(); return true;
            case M_SET: {
                auto it = std::lower_bound(s.v.begin(), s.v.end(), o.a);
                bool in = it != s.v.end() && *it == o.a;
                if (o.kind == L_INS) { if (o.done && !o.ret) return false; if (!in) s.v.insert(it, o.a); return true; }
                if (o.kind == L_REM) { if (in) s.v.erase(it); return true; }
                return !o.done || (o.ret != 0) == in; }
            case M_SMALL: {                   // an object with three states: they come back all the time
                if (o.done && o.ret != s.v[0]) return false;
                s.v[0] = small_next(s.v[0], o.a); return true; }
            case M_PRIM: {                    // one 128-bit location; ret as the primitive reports it
                u64 v0 = (u64)s.v[0], v1 = (u64)s.v[1], ret = 0;
                switch (o.kind) {
                    case P_SWAP: ret = v0; v0 = (u64)o.a; break;
                    case P_FAA64: ret = v0; v0 += (u64)o.a; break;
                    case P_FAA32: ret = (u64)(i64)(int)(unsigned)v0; v0 = (v0 & ~0xffffffffULL) | (unsigned)((unsigned)v0 + (unsigned)o.a); break;
                    case P_CAS64: ret = v0 == (u64)o.a; if (ret) v0 = (u64)o.b; break;
                    case P_CAS32: ret = (unsigned)v0 == (unsigned)o.a; if (ret) v0 = (v0 & ~0xffffffffULL) | (unsigned)o.b; break;
                    case P_CAS128: ret = v0 == (u64)(o.a >> 32) && v1 == (u64)(o.a & 0xffffffffLL); if (ret) { v0 = (u64)(o.b >> 32); v1 = (u64)(o.b & 0xffffffffLL); } break;
                    case P_BTAS: ret = (v0 >> (o.a & 63)) & 1; v0 |= 1ULL << (o.a & 63); break;
                    case P_READ: ret = v0; break;
                    case P_READ1: ret = v1; break;
                }
                if (o.done && ret != (u64)o.ret) return false;
                s.v[0] = (i64)v0; s.v[1] = (i64)v1;
                return true; }
        }
        return false;
    }
    u64 min_res() { u64 m = ~0ULL; for (int i : byinv) if (!done[i] && h[i].done && h[i].res < m) m = h[i].res; return m; }
    bool go() {
        St entry = st; std::vector<int> moved;
        u64 minres;
        for (;;) {
            minres = min_res();
            int i = free_move(minres);
            if (i < 0) break;
            apply(h[i], st); done[i] = 1; ndone++; moved.push_back(i);
        }
        if (ndone == need) return true;
        if (++states > limit) { giveup = true; return true; }
        Key k; k.k.assign((h.size() + 63) / 64, 0);
        for (size_t i = 0; i < h.size(); i++) if (done[i]) k.k[i / 64] |= 1ULL << (i % 64);
        k.k.push_back(st.v.size()); for (i64 x : st.v) k.k.push_back((u64)x);
        if (seen.insert(k).second) {
            for (int i : order) {
                if (done[i] || h[i].inv > minres) continue;
                if ((model == M_STACK || model == M_QUEUE) && h[i].kind == L_INS && buried(i)) continue;
                St save = st;
                if (apply(h[i], st)) {
                    done[i] = 1; if (h[i].done) ndone++;
                    if (go()) return true;
                    done[i] = 0; if (h[i].done) ndone--;
                }
                st = save;
            }
        }
        for (int i : moved) { done[i] = 0; ndone--; }
        st = entry;
        return false;
    }
};
}
bool linearizable(int model, const std::vector<LinOp> &h, i64 empty, std::string &expl, u64 *states, const std::vector<i64> *init, u64 limit) {
    L l{model, empty, h, limit};
    l.done.assign(h.size(), 0);
    if (init) l.st.v = *init;
    for (auto &o : h) l.need += o.done;
    for (size_t i = 0; i < h.size(); i++) l.byinv.push_back((int)i);
    std::sort(l.byinv.begin(), l.byinv.end(), [&](int a, int b) { return h[a].inv < h[b].inv; });
    l.order = l.byinv;
    if (model == M_QUEUE || model == M_STACK) {
        std::map<i64, u64> rt; std::map<i64, int> cnt;
        for (auto &o : h) { if (o.kind == L_INS) cnt[o.a]++; else if (o.done && o.ret != empty) rt[o.ret] = o.res; }
        l.distinct = true; for (auto &c : cnt) if (c.second > 1) l.distinct = false;
        l.ri.assign(h.size(), ~0ULL); l.rr = l.ri;
        if (l.distinct) {
            for (size_t i = 0; i < h.size(); i++) if (h[i].kind == L_INS) l.insmap[h[i].a] = (int)i;
            for (auto &o : h) if (o.kind == L_REM) { if (!o.done) l.pend_rem++; else if (o.ret == empty) l.empties.push_back((int)(&o - &h[0])); else { int i = l.ins_of(o.ret); if (i >= 0) { l.ri[i] = o.inv; l.rr[i] = o.res; } } }
        }
        if (model == M_STACK) std::stable_sort(l.order.begin(), l.order.end(), [&](int a, int b) {
            auto key = [&](int i) -> u64 { return h[i].kind != L_INS ? 0 : ~l.rr[i]; };    // the bottom of the stack first
            return key(a) < key(b); });
        if (model == M_QUEUE) std::stable_sort(l.order.begin(), l.order.end(), [&](int a, int b) {
            auto key = [&](int i) -> u64 { if (h[i].kind != L_INS) return 0; auto it = rt.find(h[i].a); return it == rt.end() ? ~0ULL : it->second; };
            return key(a) < key(b); });
    }
    bool ok = l.go();
    if (states) *states += l.states;
    if (l.giveup) { sim_probe("lin_inconclusive"); return true; }
    if (!ok) {
        expl = "no sequential order explains:";
        for (int i : l.byinv) { auto &o = h[i]; expl += fmt(" [%s(%lld)", o.kind == L_INS ? "ins" : o.kind == L_REM ? "rem" : "op", (long long)o.a);
            if (o.done) expl += fmt("=%lld @%llu-%llu]", (long long)o.ret, (unsigned long long)o.inv, (unsigned long long)o.res); else expl += fmt(" pending @%llu]", (unsigned long long)o.inv);
            if (expl.size() > 1200) { expl += " ..."; break; } }
    }
    return ok;
}
