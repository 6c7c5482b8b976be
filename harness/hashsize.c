/* C09: the table made for any number of blocks has room for all of them, or is refused. */
#include "vp.h"
#include <stdlib.h>
#include "hashtable.h"
static size_t asked[8]; static int n;
void *vp_calloc(size_t a, size_t b) { vp_assert(!b || a <= (size_t)-1 / b, "allocation size overflows"); vp_assert(n < 8, "too many allocations"); asked[n++] = a * b; return calloc(1, 256); }
void *vp_malloc(size_t a) { vp_assert(n < 8, "too many allocations"); asked[n++] = a; return calloc(1, 256); }
void vp_main(void) {
    int size = (int)vp_nd(32, "size"); vp_assume(size >= 0);
    hashtable_t *t = _hashtable_new(size);
    if (!t) { vp_assert(size > 500000000, "a table of reasonable size was refused"); vp_witness(1); vp_done(); }
    vp_assert(t->size > size, "table without room for its entries"); vp_assert((t->size & (t->size - 1)) == 0 && t->tmask == (unsigned)t->size - 1, "table size and mask disagree");
    uint64_t want = (uint64_t)t->size; int ok = 0, i;
    for (i = 0; i < n; i++) if (asked[i] >= want * sizeof(void *)) ok = 1;
    vp_assert(ok, "entry table smaller than the table size"); for (ok = 0, i = 0; i < n; i++) if (asked[i] >= sizeof(hashtable_t) + want * sizeof(unsigned)) ok = 1;
    vp_assert(ok, "key table smaller than the table size");
    vp_witness(2);
}
