/* C10 / C02 / C13: what rs_delta makes of a signature and a new file, against
 * the greedy reference: at each position, left to right, a window that is a
 * basis block becomes a copy, any other byte a literal; copies that continue
 * one another are one command.  The block lookup is replaced by its
 * specification (C09), the weak sums are checked against the window.
 * NB/NN sizes, BL block length, DM slicing, LITMAX longest literal command. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef NB
#define NB 4
#endif
#ifndef NN
#define NN 6
#endif
#ifndef BL
#define BL 2
#endif
#ifndef DM
#define DM S_WHOLE
#endif
#ifndef MAGICS
#define MAGICS 2, 3
#endif
#ifdef LIBRSYNC_VERIF_MAX_DELTA_CMD
#define LITMAX (LIBRSYNC_VERIF_MAX_DELTA_CMD - 3)
#else
#define LITMAX 65535
#endif
#define DCAP (6 * NN + 8)
static u8 basis[NB + 1], new_[NN + 1], sigb[12 + 5 * (NB + 1)], delta[DCAP]; static size_t nb = NB, nn = NN; static int magic;
/* first basis block equal to the window, or -1 */
static int64_t lookup(const u8 *p, size_t len) {
    size_t i, b;
    for (b = 0; b * BL < nb; b++) {
        size_t l = nb - b * BL < BL ? nb - b * BL : BL; int eq = l == len;
        if (!eq) continue;
        for (i = 0; i < len; i++) eq &= p[i] == basis[b * BL + i];
        if (eq) return (int64_t)(b * BL);
    }
    return -1;
}
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len) {
    const u8 *p = buf;
    vp_assert(len > 0 && len <= BL, "lookup of a block of impossible length");
    uint32_t w = ref_weak(magic, p, len);
    vp_assert((uint32_t)weak == ((magic & 0xf0) == 0x30 ? ref_mix32(w) : w), "rolling checksum does not match the data under the window");
    return lookup(p, len);
}
static uint64_t be(const u8 *p, size_t n) { uint64_t v = 0; while (n--) v = v << 8 | *p++; return v; }
void vp_main(void) {
    static const int mags[] = { MAGICS }, sz[4] = { 1, 2, 4, 8 }; size_t i, sn, x; rs_signature_t *sig; u8 dummy[1];
    magic = ref_magics[mags[vp_range(0, sizeof mags / sizeof mags[0] - 1, "magic")]];
#if ANYLEN
    nb = vp_range(ANYLEN > 1 ? 0 : 1, NB, "nb"); nn = vp_range(0, NN, "nn");
#endif
#if MIX /* concrete mixture of matching and other data, one symbolic byte */
    for (i = 0; i < NB; i++) basis[i] = (u8)(i * 5 % 7);
    { uint32_t l = 7; for (i = 0; i < NN; i++) { l = l * 1103515245 + 12345; new_[i] = (l >> 16 & 3) ? basis[(i + (l >> 20 & 1)) % NB] : (u8)(l >> 24); } new_[MIX] = ND8("n"); }
#elif PATTERN /* mostly concrete: SYMS symbolic bytes */
    for (i = 0; i < NB; i++) basis[i] = (u8)(i * 7 + (i >> 5));
    { size_t sh = vp_range(0, PATTERN, "shift"); for (i = 0; i < NN; i++) new_[i] = (u8)((i + sh) * 7 + ((i + sh) >> 5)); i = vp_range(0, 3, "at"); new_[i * (NN - 1) / 3] = ND8("n"); }
#else
    for (i = 0; i < NB; i++) basis[i] = ND8("b");
    for (i = 0; i < NN; i++) new_[i] = ND8("n");
#endif
    put4(sigb, magic); put4(sigb + 4, BL); put4(sigb + 8, 1); sn = 12; for (i = 0; i * BL < nb; i++) { put4(sigb + sn, i + 1); sigb[sn + 4] = 0; sn += 5; }
    { rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { sigb, sn, 0, dummy, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j); }
    vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built");
    rs_job_t *j = rs_delta_begin(sig); io_t io = { new_, nn, 0, delta, DCAP, 0 };
    vp_assert(io_run(j, &io, DM) == RS_DONE, "delta failed");
    vp_assert(io.pos == nn, "input left unread");
    /* decode and compare */
    size_t p = 4, q = 0, copies = 0, lits = 0, refcopies = 0; uint64_t cb = 0, lb = 0, ccb = 0, lcb = 0; int64_t refend = -1; size_t refleft = 0, litrun = 0;
    vp_assert(io.got >= 5 && be(delta, 4) == 0x72730236, "wrong delta magic");
    for (;;) {
        vp_assert(p < io.got, "delta is truncated");
        unsigned op = vp_concrete(delta[p++]);
        if (op == 0) break;
        if (op <= 0x44) { uint64_t l = op; size_t w = 0; if (op > 0x40) { w = sz[op - 0x41]; l = be(delta + p, w); p += w; }
            l = vp_concrete(l); lits++; lb += l; lcb += 1 + w; litrun += l;
            vp_assert(l > 0 && l <= LITMAX && l <= io.got - p && q + l <= nn, "literal command of impossible length");
            for (i = 0; i < l; i++, q++) { vp_assert(delta[p++] == new_[q], "literal byte is not the new file's");
                if (q >= refleft) { size_t wl = nn - q < BL ? nn - q : BL; vp_assert(lookup(new_ + q, wl) < 0, "a window that is a basis block was sent as literal"); refend = -1; }
                else vp_fail("part of a matching block was sent as literal"); }
        } else { vp_assert(op <= 0x54, "unknown command"); size_t w1 = sz[(op - 0x45) / 4], w2 = sz[(op - 0x45) % 4];
            uint64_t from = vp_concrete(be(delta + p, w1)), l = vp_concrete(be(delta + p + w1, w2)); p += w1 + w2; copies++; cb += l; ccb += 1 + w1 + w2; litrun = 0;
            vp_assert(l > 0 && from <= nb && l <= nb - from && q + l <= nn, "copy command outside the files");
            vp_assert(from != (uint64_t)refend, "a copy that continues the previous one is a command of its own");
            for (i = 0; i < l; i++, q++) { vp_assert(basis[from + i] == new_[q], "copied byte is not the new file's");
                if (q >= refleft) { size_t wl = nn - q < BL ? nn - q : BL; int64_t m = lookup(new_ + q, wl); vp_assert(m >= 0 && (uint64_t)m == from + i, "copy does not start at the matching block"); refleft = q + wl; if (!i) refcopies++; } }
            vp_assert(q == refleft, "copy does not end with a block"); refend = (int64_t)(from + l);
        }
        if (q == nn) { /* only END may follow */ }
    }
    vp_assert(p == io.got, "data after the end command");
    vp_assert(q == nn, "delta does not cover the new file");
#ifdef STATS
    const rs_stats_t *st = rs_job_statistics(j);
    vp_assert(st->copy_cmds == (int)copies && (uint64_t)st->copy_bytes == cb && (uint64_t)st->copy_cmdbytes == ccb, "copy statistics do not describe the delta");
    vp_assert(st->lit_cmds == (int)lits && (uint64_t)st->lit_bytes == lb && (uint64_t)st->lit_cmdbytes == lcb, "literal statistics do not describe the delta");
#endif
#if DM == 0
    vp_assert(lits <= copies + 1 + nn / LITMAX, "literals are split more than the command length requires");
#endif
    if (copies >= 1 && lits >= 2) vp_witness(1); if (copies == 2 && nn == NN) vp_witness(2); if (lits > copies + 1) vp_witness(3); if (nn > BL && copies == 1 && !lits) vp_witness(4);
    vp_note(io.got); vp_note(copies); vp_note(lits);
    vp_assert(rs_job_free(j) == RS_DONE, "rs_job_free failed"); rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
    (void)x; (void)litrun;
}
