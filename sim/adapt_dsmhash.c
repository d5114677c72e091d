#include <config.h>
#include <primitives.h>
#include <dsmhash.h>
#include "adapt.h"
void *ad_dsmh_new(int n, int cells) { DSMHash *o = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(DSMHash)); DSMHashInit(o, cells, n); return o; }
void *ad_dsmh_ts(void *o, int cells, int pid) { DSMHashThreadState *t = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(DSMHashThreadState)); DSMHashThreadStateInit(o, t, cells, pid); return t; }
long ad_dsmh_op(void *o, void *t, int k, long x, long y, int pid) {
    if (k == 1) return DSMHashInsert(o, t, x, y, pid);
    if (k == 2) { DSMHashDelete(o, t, x, pid); return 0; }
    return DSMHashSearch(o, t, x, pid);
}
#if defined(DEBUG) && !defined(AD_NO_COUNTERS)
long ad_dsmh_counter(void *o, int cells) { DSMHash *h = o; long c = 0; int i; for (i = 0; i < cells; i++) c += h->synch[i].counter; return c; }
#else
long ad_dsmh_counter(void *o, int cells) { return -1; }
#endif
