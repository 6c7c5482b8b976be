/* The block entries of a loaded signature, found without assuming their layout:
 * adding one more block shows how far apart entries lie. */
#ifndef SIGMEM_H
#define SIGMEM_H
#include "sumset.h"
static size_t sig_stride(rs_signature_t *sig) {
    rs_strong_sum_t z; size_t i, n = (size_t)sig->count; for (i = 0; i < sizeof z; i++) z[i] = 0;
    if (!n) return 0;
    char *e = (char *)rs_signature_add_block(sig, 0, &z); return (size_t)(e - (char *)sig->block_sigs) / n;
}
static const rs_block_sig_t *sig_entry(const rs_signature_t *sig, size_t stride, size_t i) { return (const rs_block_sig_t *)((const char *)sig->block_sigs + i * stride); }
#endif
