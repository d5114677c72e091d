#define _GNU_SOURCE
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <primitives.h>
#include <threadtools.h>
#include <uthreads.h>
#include <barrier.h>
#include <pool.h>
#include <stats.h>
#include <fastrand.h>
#include <ccsynch.h>
#include <dsmsynch.h>
#include <hsynch.h>
#include <oyama.h>
#include <fc.h>
#include <osci.h>
#include <sim.h>
#include <lfuobject.h>
#include <ccqueue.h>
#include <dsmqueue.h>
#include <hqueue.h>
#include <osciqueue.h>
#include <fcqueue.h>
#include <msqueue.h>
#include <lcrq.h>
#include <simqueue.h>
#include <ccstack.h>
#include <dsmstack.h>
#include <hstack.h>
#include <oscistack.h>
#include <fcstack.h>
#include <lfstack.h>
#include <simstack.h>
#include <clh.h>
#include <mcs.h>
#include "adapt.h"

long ad_empty(void) { return EMPTY_QUEUE; }
long chain(long old, long arg, long pid) {
    unsigned long z = (unsigned long)old * 0x9e3779b97f4a7c15UL + (unsigned long)arg * 0xbf58476d1ce4e5b9UL + (unsigned long)(pid + 1) * 0x94d049bb133111ebUL;
    z ^= z >> 29; z *= 0xd6e8feb86659fd93UL; z ^= z >> 32;
    return (long)z;
}
extern void h_served(void), h_pause(void), h_log(long i, long arg, long pid), h_nested(long inner, long arg);          /* harness */
static RetVal seq_apply(void *state, ArgVal arg, int pid) {
    Seq *s = state;
    long old, i;
    if (s->busy) s->overlap++;
    s->busy = pid + 1;
    h_served();
    for (i = s->work; i > 0; i--) h_pause();
    if (s->nest) h_nested(s->nest - 1, arg);
    i = s->n;
    if (i >= 0 && i < 1200) { s->log[i].arg = arg; s->log[i].pid = pid; }
    else h_log(i, arg, pid);
    old = s->val;
    s->val = chain(old, arg, pid);
    s->n = i + 1;
    if (s->busy != pid + 1) s->overlap++;
    s->busy = 0;
    return old;
}
static Seq *oy_state[4];
static RetVal oy0(ArgVal a, int p) { return seq_apply(oy_state[0], a, p); }
static RetVal oy1(ArgVal a, int p) { return seq_apply(oy_state[1], a, p); }
static RetVal oy2(ArgVal a, int p) { return seq_apply(oy_state[2], a, p); }
static RetVal oy3(ArgVal a, int p) { return seq_apply(oy_state[3], a, p); }
static RetVal (*const oy[4])(ArgVal, int) = {oy0, oy1, oy2, oy3};
/* for the universal constructions: the object is one word, applied to a copy */
extern void h_edge(long old, long arg, long pid);   /* harness: which request was tried on which state */
static RetVal word_apply(void *state, ArgVal arg, int pid) {
    ObjectState *o = state;
    long old = o->state;
    h_edge(old, arg, pid);
    o->state = chain(old, arg, pid);
    return old;
}

long small_next(long old, long arg) {
    switch (arg & 3) { case 0: return old; case 1: return (old + 1) % 3; case 2: return (old + 2) % 3; }
    return old == 0;
}
static RetVal small_apply(void *state, ArgVal arg, int pid) {
    ObjectState *o = state;
    long old = o->state;
    o->state = small_next(old, arg);
    return old;
}

void ad_work(Ad *a, int w) { if (a->seq) a->seq->work = w; }
void ad_nest(Ad *a, int inner) { if (a->seq) a->seq->nest = inner + 1; }
Ad *ad_new(int type, int n, int p1, int p2, int inst) {
    Ad *a = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(Ad));
    a->type = type; a->n = n; a->p1 = p1; a->p2 = p2; a->seq = 0; a->obj = 0; a->cells = p1; a->inst = inst & 3;
    if (type <= O_OSCI) {
        a->seq = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(Seq));
        a->seq->busy = a->seq->n = a->seq->overlap = 0; a->seq->val = 12345; a->seq->work = a->seq->nest = 0;
    }
#define NEW(T) a->obj = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(T))
    switch (type) {
        case O_CC: NEW(CCSynchStruct); CCSynchStructInit(a->obj, n); break;
        case O_DSM: NEW(DSMSynchStruct); DSMSynchStructInit(a->obj, n); break;
        case O_H: NEW(HSynchStruct); HSynchStructInit(a->obj, n, p1); break;
        case O_OYAMA: NEW(OyamaStruct); OyamaInit(a->obj, n); oy_state[a->inst] = a->seq; break;
        case O_FC: NEW(FCStruct); FCStructInit(a->obj, n); break;
        case O_OSCI: NEW(OsciStruct); OsciInit(a->obj, n, p1); break;
        case O_SIM: NEW(SimStruct); synchSimStructInit(a->obj, n, p2); break;
        case O_LFU: NEW(LFUObjectStruct); LFUObjectInit(a->obj, p1 == 3 ? 0 : 12345); break;
        case O_CCQ: NEW(CCQueueStruct); CCQueueStructInit(a->obj, n); break;
        case O_DSMQ: NEW(DSMQueueStruct); DSMQueueStructInit(a->obj, n); break;
        case O_HQ: NEW(HQueueStruct); HQueueInit(a->obj, n, p1); break;
        case O_OSCIQ: NEW(OsciQueueStruct); OsciQueueInit(a->obj, n, p1); break;
        case O_FCQ: NEW(FCQueueStruct); FCQueueStructInit(a->obj, n); break;
        case O_MSQ: NEW(MSQueueStruct); MSQueueInit(a->obj); break;
        case O_LCRQ: NEW(LCRQStruct); LCRQInit(a->obj, n); break;
        case O_SIMQ: NEW(SimQueueStruct); SimQueueStructInit(a->obj, n, p2); break;
        case O_CCS: NEW(CCStackStruct); CCStackInit(a->obj, n); break;
        case O_DSMS: NEW(DSMStackStruct); DSMSStackInit(a->obj, n); break;
        case O_HS: NEW(HStackStruct); HStackInit(a->obj, n, p1); break;
        case O_OSCIS: NEW(OsciStackStruct); OsciStackInit(a->obj, n, p1); break;
        case O_FCS: NEW(FCStackStruct); FCStackInit(a->obj, n); break;
        case O_LFS: NEW(LFStackStruct); LFStackInit(a->obj); break;
        case O_SIMS: NEW(SimStackStruct); SimStackStructInit(a->obj, n, p2); break;
        case O_CLHH: a->obj = ad_clhh_new(n, p1); break;
        case O_DSMH: a->obj = ad_dsmh_new(n, p1); break;
        case O_CLH: a->obj = CLHLockInit(n); break;
        case O_MCS: a->obj = MCSLockInit(); break;
    }
    return a;
}
void *ad_ts(Ad *a, int pid) {
    void *t = 0;
#define TS(T) t = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(T))
    switch (a->type) {
        case O_CC: TS(CCSynchThreadState); CCSynchThreadStateInit(a->obj, t, pid); break;
        case O_DSM: TS(DSMSynchThreadState); DSMSynchThreadStateInit(a->obj, t, pid); break;
        case O_H: TS(HSynchThreadState); HSynchThreadStateInit(a->obj, t, pid); break;
        case O_OYAMA: TS(OyamaThreadState); OyamaThreadStateInit(t); break;
        case O_FC: TS(FCThreadState); FCThreadStateInit(a->obj, t, pid); break;
        case O_OSCI: TS(OsciThreadState); OsciThreadStateInit(t, a->obj, pid); break;
        case O_SIM: TS(SimThreadState); SimThreadStateInit(t, a->n, pid); break;
        case O_LFU: TS(LFUObjectThreadState); LFUObjectThreadStateInit(t, 1, a->p2); break;
        case O_CCQ: TS(CCQueueThreadState); CCQueueThreadStateInit(a->obj, t, pid); break;
        case O_DSMQ: TS(DSMQueueThreadState); DSMQueueThreadStateInit(a->obj, t, pid); break;
        case O_HQ: TS(HQueueThreadState); HQueueThreadStateInit(a->obj, t, pid); break;
        case O_OSCIQ: TS(OsciQueueThreadState); OsciQueueThreadStateInit(a->obj, t, pid); break;
        case O_FCQ: TS(FCQueueThreadState); FCQueueThreadStateInit(a->obj, t, pid); break;
        case O_MSQ: TS(MSQueueThreadState); MSQueueThreadStateInit(t, 1, a->p2); break;
        case O_LCRQ: TS(LCRQThreadState); LCRQThreadStateInit(t, pid); break;
        case O_SIMQ: TS(SimQueueThreadState); SimQueueThreadStateInit(a->obj, t, pid); break;
        case O_CCS: TS(CCStackThreadState); CCStackThreadStateInit(a->obj, t, pid); break;
        case O_DSMS: TS(DSMStackThreadState); DSMStackThreadStateInit(a->obj, t, pid); break;
        case O_HS: TS(HStackThreadState); HStackThreadStateInit(a->obj, t, pid); break;
        case O_OSCIS: TS(OsciStackThreadState); OsciStackThreadStateInit(a->obj, t, pid); break;
        case O_FCS: TS(FCStackThreadState); FCStackThreadStateInit(a->obj, t, pid); break;
        case O_LFS: TS(LFStackThreadState); LFStackThreadStateInit(t, 1, a->p2); break;
        case O_SIMS: TS(SimStackThreadState); SimStackThreadStateInit(t, a->n, pid); break;
        case O_CLHH: t = ad_clhh_ts(a->obj, a->cells, pid); break;
        case O_DSMH: t = ad_dsmh_ts(a->obj, a->cells, pid); break;
        case O_CLH: break;
        case O_MCS: TS(MCSThreadState); MCSThreadStateInit(t, pid); break;
    }
    return t;
}
long ad_op(Ad *a, void *t, int k, long x, long y, int pid) {
    void *o = a->obj;
    switch (a->type) {
        case O_CC: return CCSynchApplyOp(o, t, seq_apply, a->seq, x, pid);
        case O_DSM: return DSMSynchApplyOp(o, t, seq_apply, a->seq, x, pid);
        case O_H: return HSynchApplyOp(o, t, seq_apply, a->seq, x, pid);
        case O_OYAMA: return OyamaApplyOp(o, t, oy[a->inst], x, pid);
        case O_FC: return FCApplyOp(o, t, seq_apply, a->seq, x, pid);
        case O_OSCI: return OsciApplyOp(o, t, seq_apply, a->seq, x, pid);
        case O_SIM: return SimApplyOp(o, t, a->p1 == 3 ? small_apply : word_apply, x, pid);
        case O_LFU: return LFUObjectApplyOp(o, t, a->p1 == 3 ? small_apply : word_apply, x, pid);
#define Q(INS, REM) if (k == 1) { INS; return 0; } return REM
        case O_CCQ: Q(CCQueueApplyEnqueue(o, t, x, pid), CCQueueApplyDequeue(o, t, pid));
        case O_DSMQ: Q(DSMQueueApplyEnqueue(o, t, x, pid), DSMQueueApplyDequeue(o, t, pid));
        case O_HQ: Q(HQueueApplyEnqueue(o, t, x, pid), HQueueApplyDequeue(o, t, pid));
        case O_OSCIQ: Q(OsciQueueApplyEnqueue(o, t, x, pid), OsciQueueApplyDequeue(o, t, pid));
        case O_FCQ: Q(FCQueueApplyEnqueue(o, t, x, pid), FCQueueApplyDequeue(o, t, pid));
        case O_MSQ: Q(MSQueueEnqueue(o, t, x), MSQueueDequeue(o, t));
        case O_LCRQ: Q(LCRQEnqueue(o, t, x, pid), LCRQDequeue(o, t, pid));
        case O_SIMQ: Q(SimQueueEnqueue(o, t, x, pid), SimQueueDequeue(o, t, pid));
        case O_CCS: Q(CCStackPush(o, t, x, pid), CCStackPop(o, t, pid));
        case O_DSMS: Q(DSMStackPush(o, t, x, pid), DSMStackPop(o, t, pid));
        case O_HS: Q(HStackPush(o, t, x, pid), HStackPop(o, t, pid));
        case O_OSCIS: Q(OsciStackApplyPush(o, t, x, pid), OsciStackApplyPop(o, t, pid));
        case O_FCS: Q(FCStackPush(o, t, x, pid), FCStackPop(o, t, pid));
        case O_LFS: Q(LFStackPush(o, t, x), LFStackPop(o, t));
        case O_SIMS: Q(SimStackPush(o, t, x, pid), SimStackPop(o, t, pid));
        case O_CLHH: return ad_clhh_op(o, t, k, x, y, pid);
        case O_DSMH: return ad_dsmh_op(o, t, k, x, y, pid);
    }
    return 0;
}
void ad_lock(Ad *a, void *t, int pid) { if (a->type == O_CLH) CLHLock(a->obj, pid); else MCSLock(a->obj, t, pid); }
void ad_unlock(Ad *a, void *t, int pid) { if (a->type == O_CLH) CLHUnlock(a->obj, pid); else MCSUnlock(a->obj, t, pid); }

#ifdef DEBUG
int ad_debug(void) { return 1; }
#else
int ad_debug(void) { return 0; }
#endif
#if defined(DEBUG) && !defined(AD_NO_COUNTERS)
long ad_counter(Ad *a, int w) {
    void *o = a->obj;
    switch (a->type) {
        case O_CC: return ((CCSynchStruct *)o)->counter;
        case O_DSM: return ((DSMSynchStruct *)o)->counter;
        case O_H: return ((HSynchStruct *)o)->counter;
        case O_OYAMA: return ((OyamaStruct *)o)->counter;
        case O_FC: return ((FCStruct *)o)->counter;
        case O_OSCI: return ((OsciStruct *)o)->counter;
        case O_SIM: { SimStruct *s = o; return s->pool[s->sp.struct_data.index]->counter; }
        case O_CCQ: return w ? ((CCQueueStruct *)o)->dequeue_struct.counter : ((CCQueueStruct *)o)->enqueue_struct.counter;
        case O_DSMQ: return w ? ((DSMQueueStruct *)o)->dequeue_struct.counter : ((DSMQueueStruct *)o)->enqueue_struct.counter;
        case O_HQ: return w ? ((HQueueStruct *)o)->dequeue_struct->counter : ((HQueueStruct *)o)->enqueue_struct->counter;
        case O_OSCIQ: return w ? ((OsciQueueStruct *)o)->dequeue_struct.counter : ((OsciQueueStruct *)o)->enqueue_struct.counter;
        case O_FCQ: return w ? ((FCQueueStruct *)o)->dequeue_struct.counter : ((FCQueueStruct *)o)->enqueue_struct.counter;
        case O_SIMQ: { SimQueueStruct *q = o; return w ? q->deq_pool[q->deq_sp.struct_data.index]->counter : q->enq_pool[q->enq_sp.struct_data.index]->counter; }
        case O_CCS: return ((CCStackStruct *)o)->object_struct.counter;
        case O_DSMS: return ((DSMStackStruct *)o)->object_struct.counter;
        case O_HS: return ((HStackStruct *)o)->object_struct.counter;
        case O_OSCIS: return ((OsciStackStruct *)o)->object_struct.counter;
        case O_FCS: return ((FCStackStruct *)o)->object_struct.counter;
        case O_SIMS: { SimStackStruct *s = o; return s->pool[s->sp.struct_data.index]->counter; }
        case O_DSMH: return ad_dsmh_counter(o, a->cells);
    }
    return -1;
}
#else
long ad_counter(Ad *a, int w) { return -1; }
#endif
#ifdef SYNCH_NUMA_SUPPORT
int ad_numa(void) { return 1; }
#else
int ad_numa(void) { return 0; }
#endif

int lb_start(unsigned n, void *(*f)(void *), unsigned u) { return synchStartThreadsN(n, f, u); }
void lb_join(unsigned n) { synchJoinThreadsN(n); }
int lb_id(void) { return synchGetThreadId(); }
int lb_node(void) { return synchGetPreferredNumaNode(); }
int lb_core(void) { return synchGetPreferredCore(); }
int lb_posix_id(void) { return synchGetPosixThreadId(); }
void lb_policy(unsigned p) { synchSetThreadPlacementPolicy(p); }
unsigned lb_get_policy(void) { return synchGetThreadPlacementPolicy(); }
int lb_pin(int c) { return synchThreadPin(c); }
unsigned lb_core_of(unsigned pid) { return synchPreferredCoreOfThread(pid); }
unsigned lb_node_of(unsigned pid) { return synchPreferredNumaNodeOfThread(pid); }
unsigned lb_ncores(void) { return synchGetNCores(); }
void lb_resched(void) { synchResched(); }
int lb_oversub(void) { return synchIsSystemOversubscribed(); }
void *lb_bar_new(unsigned n) { SynchBarrier *b = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(SynchBarrier)); synchBarrierSet(b, n); return b; }
void lb_bar_free(void *b) { synchFreeMemory(b, sizeof(SynchBarrier)); }
void lb_bar_set(void *b, unsigned n) { synchBarrierSet(b, n); }
void lb_bar_wait(void *b) { synchBarrierWait(b); }
void lb_bar_leave(void *b) { synchBarrierLeave(b); }
void lb_bar_last(void *b) { synchBarrierLastLeave(b); }
void lb_fib_init(int m) { synchInitFibers(m); }
int lb_fib_spawn(void *(*f)(void *), long a) { return synchSpawnFiber(f, a); }
void lb_fib_yield(void) { synchFiberYield(); }
void lb_fib_wait(void) { synchWaitForAllFibers(); }
int lb_fib_index(void) { return synchCurrentFiberIndex(); }
void *lb_pool_new(unsigned size, int *rc) { SynchPoolStruct *p = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(SynchPoolStruct)); int r = synchInitPool(p, size); if (rc) *rc = r; return p; }
void *lb_pool_alloc(void *p) { return synchAllocObj(p); }
void lb_pool_recycle(void *p, void *o) { synchRecycleObj(p, o); }
void lb_pool_rollback(void *p, unsigned k) { synchRollback(p, k); }
void lb_pool_destroy(void *p) { synchDestroyPool(p); }
void lb_pool_free(void *p) { synchFreeMemory(p, sizeof(SynchPoolStruct)); }
int lb_cas64(volatile void *a, uint64_t o, uint64_t n) { return synchCAS64(a, o, n); }
int lb_cas32(volatile void *a, uint32_t o, uint32_t n) { return synchCAS32(a, o, n); }
int lb_casptr(volatile void *a, void *o, void *n) { return synchCASPTR(a, o, n); }
int lb_cas128(volatile void *a, uint64_t o0, uint64_t o1, uint64_t n0, uint64_t n1) { return synchCAS128((uint64_t *)a, o0, o1, n0, n1); }
long lb_faa64(volatile void *a, long v) { return synchFAA64(a, v); }
int lb_faa32(volatile void *a, int v) { return synchFAA32(a, v); }
void *lb_swap(volatile void *a, void *v) { return synchSWAP((void *)a, v); }
uint64_t lb_btas(volatile void *a, int bit) { return synchBitTAS64(a, bit); }
int lb_bsf(uint64_t v) { return synchBitSearchFirst(v); }
uint64_t lb_popc(uint64_t v) { return synchNonZeroBits(v); }
long lb_millis(void) { return synchGetTimeMillis(); }
void *lb_mem(unsigned long n) { return synchGetMemory(n); }
void *lb_amem(unsigned long al, unsigned long n) { return synchGetAlignedMemory(al, n); }
void lb_free(void *p, unsigned long n) { synchFreeMemory(p, n); }
void lb_stat_start(int id) { synchStartCPUCounters(id); }
void lb_stat_stop(int id) { synchStopCPUCounters(id); }
void lb_print_stats(unsigned n, unsigned long runs) { synchPrintStats(n, runs); }
void lb_rand_seed(unsigned s) { synchFastRandomSetSeed(s); }
long lb_rand(void) { return synchFastRandom(); }
long lb_rand_range(long a, long b) { return synchFastRandomRange(a, b); }
long lb_rand32(void) { return synchFastRandom32(); }
long lb_rand_range32(uint32_t a, uint32_t b) { return synchFastRandomRange32(a, b); }
long h_load(volatile long *p) { return *p; }
void h_store(volatile long *p, long v) { *p = v; }
long h_add(volatile long *p, long v) { return __sync_fetch_and_add(p, v); }

#ifdef SYNCH_EMULATE_FAA
int ad_emu_faa(void) { return 1; }
#else
int ad_emu_faa(void) { return 0; }
#endif
#ifdef SYNCH_EMULATE_SWAP
int ad_emu_swap(void) { return 1; }
#else
int ad_emu_swap(void) { return 0; }
#endif
