/* C01 / C12 / C02 at full size: the library's own limits and buffer sizes, on
 * fixed pseudo-random contents.  What varies is the structure: the lengths of
 * the parts around every internal limit, the format, and the slicing. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef MAGLO
#define MAGLO 0
#endif
#define NB 3000
#define NMAX 210000
static u8 basis[NB], new_[NMAX], sigb[12 + 36 * 60], delta[NMAX + 200], outp[NMAX]; static size_t nn;
static rs_result cb(void *o, rs_long_t pos, size_t *len, void **buf) {
    vp_assert(pos >= 0 && pos < NB, "copy from outside the basis"); if (*len > NB - (size_t)pos) *len = NB - (size_t)pos;
    memcpy(*buf, basis + pos, *len); return RS_DONE;
}
static rs_result run(rs_job_t *j, const u8 *in, size_t n, u8 *out, size_t cap, size_t *got, size_t ic, size_t oc) {
    size_t pos = 0, g = 0; rs_result r; int k = 0;
    do { rs_buffers_t b; size_t c = n - pos < ic ? n - pos : ic, m = cap - g < oc ? cap - g : oc; u8 *pi = malloc(c), *po = malloc(m); memcpy(pi, in + pos, c);
        b.next_in = (char *)pi; b.avail_in = c; b.eof_in = pos + c == n; b.next_out = (char *)po; b.avail_out = m; r = rs_job_iter(j, &b);
        vp_assert(b.avail_in <= c && b.avail_out <= m, "more used than offered"); pos += c - b.avail_in; memcpy(out + g, po, m - b.avail_out); g += m - b.avail_out; free(pi); free(po);
        vp_assert(++k < 3000, "the job does not finish"); } while (r == RS_BLOCKED);
    *got = g; rs_job_free(j); vp_assert(r != RS_DONE || pos == n, "input left unread"); return r;
}
static uint32_t seed = 4711; static u8 rnd(void) { seed = seed * 1103515245 + 12345; return seed >> 16; }
void vp_main(void) {
    static const size_t lens[] = { LENS }, ics[] = { ICS }, ocs[] = { OCS }, bls[] = { 61, 700 }; size_t i, sn, dn, on, x, copied = 0, p, q;
    int magic = ref_magics[vp_range(MAGLO, 3, "magic")]; size_t bl = bls[vp_range(0, 1, "bl")], l1 = lens[vp_range(0, sizeof lens / sizeof *lens - 1, "l1")], l2 = lens[vp_range(0, L2MAX, "l2")], ic = ics[vp_range(0, sizeof ics / sizeof *ics - 1, "ic")], oc = ocs[vp_range(0, sizeof ocs / sizeof *ocs - 1, "oc")];
    for (i = 0; i < NB; i++) basis[i] = rnd();
    for (i = 0; i < l1; i++) new_[nn++] = rnd(); memcpy(new_ + nn, basis + bl, 2 * bl); nn += 2 * bl; for (i = 0; i < l2; i++) new_[nn++] = rnd(); memcpy(new_ + nn, basis, NB); nn += NB;
    rs_signature_t *sig; vp_assert(run(rs_sig_begin(bl, 8, magic), basis, NB, sigb, sizeof sigb, &sn, ic, oc) == RS_DONE, "signature failed"); vp_assert(sn == 12 + 12 * ((NB + bl - 1) / bl), "signature has the wrong length");
    vp_assert(run(rs_loadsig_begin(&sig), sigb, sn, outp, 0, &x, ic, oc) == RS_DONE, "loading the signature failed"); vp_assert(rs_build_hash_table(sig) == RS_DONE, "building the hash table failed");
    vp_assert(run(rs_delta_begin(sig), new_, nn, delta, sizeof delta, &dn, ic, oc) == RS_DONE, "delta failed"); rs_free_sumset(sig);
    vp_assert(dn <= l1 + l2 + 100, "blocks of the old file are sent as literals");
    for (p = 4; p < dn && delta[p];) { static const u8 sz[4] = { 1, 2, 4, 8 }; unsigned op = delta[p++]; vp_assert(op <= 0x54, "bad command"); uint64_t l = op; if (op > 0x40 && op <= 0x44) for (q = sz[op - 0x41], l = 0; q--;) l = l << 8 | delta[p++]; if (op <= 0x44) { vp_assert(l <= 70000, "literal command beyond the documented limit"); p += l; } else { for (q = sz[(op - 0x45) / 4]; q--;) p++; for (q = sz[(op - 0x45) % 4], l = 0; q--;) l = l << 8 | delta[p++]; copied += l; } }
    vp_assert(p + 1 == dn && copied == NB + 2 * bl, "delta is not made of the expected commands");
    vp_assert(run(rs_patch_begin(cb, 0), delta, dn, outp, nn, &on, ic, oc) == RS_DONE, "patch failed on a delta made by the library");
    vp_assert(on == nn && !memcmp(outp, new_, nn), "patched file differs from the new file");
    if (l1 > 65536 && l2 > 65536) vp_witness(1); vp_note(dn);
    vp_assert(vp_heap_live() == 0, "memory leaked");
}
