/* Stand-in for both strong hashes: an injective encoding (length byte, then
 * the data) for inputs shorter than the digest.  It models "strong sums of
 * different blocks differ", which is what the algorithm assumes of the real
 * hashes; the real ones are checked in C07. */
#include <string.h>
#include "vp.h"
#include "librsync.h"
#include "mdfour.h"
#include "blake2.h"
#ifdef IH_FOLD /* long blocks: position-dependent fold of the data */
typedef struct { unsigned n; unsigned char olen, a[16]; } ih_t;
static void add(ih_t *h, const void *p, size_t n) {
    if (!h->n) memset(h->a, 0, 16);
    for (size_t i = 0; i < n; i++, h->n++) h->a[h->n & 15] = h->a[h->n & 15] * 3 + ((const unsigned char *)p)[i] + 1;
}
static void out(ih_t *h, unsigned char *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = (h->n ? h->a[i & 15] : 0) ^ (i == 0 ? h->n : 0); }
#else
typedef struct { unsigned char n, olen, d[62]; } ih_t;
static void add(ih_t *h, const void *p, size_t n) {
    vp_assert(h->n + n <= sizeof h->d, "more data hashed than a block holds");
    for (size_t i = 0; i < n; i++) h->d[h->n + i] = ((const unsigned char *)p)[i];
    h->n += n;
}
static void out(ih_t *h, unsigned char *o, size_t n) {
#ifdef IH_RAW /* no length byte: the first byte of the data is the first byte of the sum */
    for (size_t i = 0; i < n; i++) o[i] = i < h->n ? h->d[i] : 0;
    return;
#endif
    vp_assert(h->n < n, "harness: block too long for the ideal hash");
    o[0] = h->n;
    for (size_t i = 0; i + 1 < n; i++) o[1 + i] = i < h->n ? h->d[i] : 0;
}
#endif
void rs_mdfour_begin(rs_mdfour_t *md) { ((ih_t *)md)->n = 0; }
void rs_mdfour_update(rs_mdfour_t *md, void const *p, size_t n) { add((ih_t *)md, p, n); }
void rs_mdfour_result(rs_mdfour_t *md, unsigned char *o) { out((ih_t *)md, o, 16); }
void rs_mdfour(unsigned char *o, void const *p, size_t n) { ih_t h; h.n = 0; add(&h, p, n); out(&h, o, 16); }
int blake2b_init(blake2b_state *S, size_t outlen) { ih_t *h = (ih_t *)S; h->n = 0; h->olen = outlen; return 0; }
int blake2b_update(blake2b_state *S, const void *p, size_t n) { add((ih_t *)S, p, n); return 0; }
int blake2b_final(blake2b_state *S, void *o, size_t n) {
    ih_t *h = (ih_t *)S;
    vp_assert(n == 32 && h->olen == 32, "BLAKE2 digest of the wrong length");
    out(h, o, 32); return 0;
}
int blake2b(void *o, size_t outlen, const void *in, size_t inlen, const void *key, size_t keylen) {
    blake2b_state s; (void)key; vp_assert(keylen == 0, "keyed BLAKE2"); blake2b_init(&s, outlen); blake2b_update(&s, in, inlen); return blake2b_final(&s, o, outlen);
}
