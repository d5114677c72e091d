#include <config.h>
#include <primitives.h>
#include <clhhash.h>
#include "adapt.h"
void *ad_clhh_new(int n, int cells) { CLHHash *o = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(CLHHash)); CLHHashStructInit(o, cells, n); return o; }
void *ad_clhh_ts(void *o, int cells, int pid) { CLHHashThreadState *t = synchGetAlignedMemory(CACHE_LINE_SIZE, sizeof(CLHHashThreadState)); CLHHashThreadStateInit(o, t, cells, pid); return t; }
long ad_clhh_op(void *o, void *t, int k, long x, long y, int pid) {
    if (k == 1) return CLHHashInsert(o, t, x, y, pid);
    if (k == 2) { CLHHashDelete(o, t, x, pid); return 0; }
    return CLHHashSearch(o, t, x, pid);
}
