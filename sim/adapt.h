/* Uniform access to the library's objects, through its public headers only. */
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { /* combining / universal objects */
    O_CC, O_DSM, O_H, O_OYAMA, O_FC, O_OSCI, O_SIM, O_LFU,
    /* queues */
    O_CCQ, O_DSMQ, O_HQ, O_OSCIQ, O_FCQ, O_MSQ, O_LCRQ, O_SIMQ,
    /* stacks */
    O_CCS, O_DSMS, O_HS, O_OSCIS, O_FCS, O_LFS, O_SIMS,
    /* hash tables */
    O_CLHH, O_DSMH,
    /* locks */
    O_CLH, O_MCS,
    O_N };
typedef struct Seq {                 /* the sequential object behind a combining object */
    volatile long busy;
    volatile long val;
    volatile long n, overlap;
    volatile long pads[3];
    volatile long work;             /* pauses inside the sequential function */
    volatile long nest;             /* 1 + the object whose operations are called inside the sequential function */
    struct { volatile long arg; volatile long pid; } log[1200];
} Seq;
typedef struct Ad {
    int type, n, p1, p2;
    void *obj;
    Seq *seq;
    int cells, inst;
} Ad;
void ad_work(Ad *a, int w);
void ad_nest(Ad *a, int inner);
Ad *ad_new(int type, int n, int p1, int p2, int inst);
void *ad_ts(Ad *a, int pid);
/* kind: 1 insert/apply/lock-section, 2 remove, 3 find */
long ad_op(Ad *a, void *ts, int kind, long x, long y, int pid);
void ad_lock(Ad *a, void *ts, int pid);
void ad_unlock(Ad *a, void *ts, int pid);
long ad_counter(Ad *a, int which);   /* DEBUG builds: requests served (-1: the object counts none) */
long ad_empty(void);
int ad_debug(void), ad_numa(void), ad_emu_faa(void), ad_emu_swap(void);
long chain(long old, long arg, long pid);
long small_next(long old, long arg);  /* an object with three states */

void *ad_clhh_new(int n, int cells); void *ad_clhh_ts(void *o, int cells, int pid); long ad_clhh_op(void *o, void *ts, int kind, long x, long y, int pid);
void *ad_dsmh_new(int n, int cells); void *ad_dsmh_ts(void *o, int cells, int pid); long ad_dsmh_op(void *o, void *ts, int kind, long x, long y, int pid);
long ad_dsmh_counter(void *o, int cells);

/* library services, callable from C++ */
int lb_start(unsigned n, void *(*f)(void *), unsigned uthreads);
void lb_join(unsigned n);
int lb_id(void), lb_node(void), lb_core(void), lb_posix_id(void);
void lb_policy(unsigned p); unsigned lb_get_policy(void); int lb_pin(int c);
unsigned lb_core_of(unsigned pid), lb_node_of(unsigned pid), lb_ncores(void);
void lb_resched(void); int lb_oversub(void);
void *lb_bar_new(unsigned n); void lb_bar_free(void *b); void lb_bar_set(void *b, unsigned n); void lb_bar_wait(void *b); void lb_bar_leave(void *b); void lb_bar_last(void *b);
void lb_fib_init(int max); int lb_fib_spawn(void *(*f)(void *), long a); void lb_fib_yield(void); void lb_fib_wait(void); int lb_fib_index(void);
void *lb_pool_new(unsigned size, int *rc); void *lb_pool_alloc(void *p); void lb_pool_recycle(void *p, void *o); void lb_pool_rollback(void *p, unsigned k); void lb_pool_destroy(void *p); void lb_pool_free(void *p);
int lb_cas64(volatile void *a, uint64_t o, uint64_t n); int lb_cas32(volatile void *a, uint32_t o, uint32_t n); int lb_casptr(volatile void *a, void *o, void *n);
int lb_cas128(volatile void *a, uint64_t o0, uint64_t o1, uint64_t n0, uint64_t n1);
long lb_faa64(volatile void *a, long v); int lb_faa32(volatile void *a, int v); void *lb_swap(volatile void *a, void *v); uint64_t lb_btas(volatile void *a, int bit);
int lb_bsf(uint64_t v); uint64_t lb_popc(uint64_t v);
long lb_millis(void);
void *lb_mem(unsigned long n); void *lb_amem(unsigned long al, unsigned long n); void lb_free(void *p, unsigned long n);
void lb_stat_start(int id); void lb_stat_stop(int id);
void lb_print_stats(unsigned n, unsigned long runs);
void lb_rand_seed(unsigned s); long lb_rand(void); long lb_rand_range(long a, long b); long lb_rand32(void); long lb_rand_range32(uint32_t a, uint32_t b);
long h_load(volatile long *p); void h_store(volatile long *p, long v); long h_add(volatile long *p, long v);  /* plain instrumented accesses */
#ifdef __cplusplus
}
#endif
