/* C16: two file operations of any kinds one after the other on the same streams,
 * whose contents and positions the caller changes in between: the second gives
 * what the streaming job gives for its own data. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#include "vfile.h"
#define CAP 160
static u8 ib[CAP], ob[CAP], bb[4]; static vfile in, out, basis; static rs_signature_t *sig;
static rs_result cb(void *o, rs_long_t pos, size_t *len, void **buf) { (void)o; size_t l = vp_concrete(*len), p; if (pos < 0 || pos >= 4) return RS_INPUT_ENDED; p = vp_concrete(pos); if (l > 4 - p) l = 4 - p; memcpy(*buf, bb + p, l); *len = l; return RS_DONE; }
static rs_signature_t *mk(void) {
    static u8 s[18]; rs_signature_t *g; rs_job_t *j = rs_loadsig_begin(&g); put4(s, 0x72730147); put4(s + 4, 2); put4(s + 8, 2); put4(s + 12, ref_weak(0x72730147, (u8 *)"ab", 2)); s[16] = 2; s[17] = 'a';
    io_t io = { s, 18, 0, s, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "sig"); rs_job_free(j); vp_assert(rs_build_hash_table(g) == RS_DONE, "hash"); return g;
}
/* One operation; with `check` its output is compared with the streaming job's. */
static void op(int kind, int check) {
    size_t i; rs_result r, q = RS_DONE; rs_stats_t st; static u8 ref[CAP]; rs_signature_t *g = 0, *h = 0; rs_job_t *j = 0;
    in.n = 0; in.pos = 0; in.eof = 0; out.n = 0;
    if (kind == 0) { in.n = 3; for (i = 0; i < 3; i++) ib[i] = ND8("d"); }
    if (kind == 1) { put4(ib, 0x72730147); put4(ib + 4, 2); put4(ib + 8, 2); for (i = 12; i < 18; i++) ib[i] = ND8("d"); in.n = 18; }
    if (kind == 2) { in.n = 4; for (i = 0; i < 4; i++) ib[i] = "xabx"[i]; ib[1 + (size_t)vp_range(0, 1, "which")] = ND8("d"); }
    if (kind == 3) { static const u8 c[] = { 0x72, 0x73, 2, 0x36, 0x45, 0, 1, 0x45, 0, 2, 1, 9, 0 }; memcpy(ib, c, sizeof c); in.n = sizeof c; ib[5] = vp_range(0, 3, "pos"); ib[8] = vp_range(0, 2, "pos"); for (i = 0; i < 4; i++) bb[i] = ND8("b"); basis.pos = vp_range(0, 4, "basispos"); basis.eof = basis.pos == 4 && vp_range(0, 1, "basiseof"); }
    fstat_size[3] = (int64_t)in.n;
    r = kind == 0 ? rs_sig_file((FILE *)&in, (FILE *)&out, 2, 3, RS_RK_BLAKE2_SIG_MAGIC, &st) : kind == 1 ? rs_loadsig_file((FILE *)&in, &g, &st) : kind == 2 ? rs_delta_file(sig, (FILE *)&in, (FILE *)&out, &st) : rs_patch_file((FILE *)&basis, (FILE *)&in, (FILE *)&out, &st);
    vp_assert(r == RS_DONE, "failed without any fault"); vp_assert(st.in_bytes == (rs_long_t)in.n && st.out_bytes == (rs_long_t)out.n, "byte counts wrong");
    if (check) {
        j = kind == 0 ? rs_sig_begin(2, 3, RS_RK_BLAKE2_SIG_MAGIC) : kind == 1 ? rs_loadsig_begin(&h) : kind == 2 ? rs_delta_begin(sig) : rs_patch_begin(cb, 0);
        io_t io = { ib, in.n, 0, ref, CAP - 1, 0 }; q = io_run(j, &io, S_WHOLE); rs_job_free(j); vp_assert(q == r, "another result than the streaming job");
        vp_assert(io.got == out.n, "another output length than the streaming job"); for (i = 0; i < out.n; i++) vp_assert(ref[i] == ob[i], "another output than the streaming job");
        if (kind == 1) { vp_assert(g->count == h->count && g->count == 1 && g->block_len == 2 && g->strong_sum_len == 2 && g->magic == h->magic, "another signature than the streaming job"); rs_free_sumset(h); }
    }
    if (g) rs_free_sumset(g);
}
void vp_main(void) {
    vfile a = { ib, 0, 0, 0, 0, 0, 3, 0 }, b = { ob, 0, CAP, 0, 0, 0, 4, 1 }, c = { bb, 4, 0, 0, 0, 0, 5, 0 }; int k1, k2;
    in = a; out = b; basis = c; fstat_mode = (int)vp_range(0, 1, "fstat"); sig = mk(); k1 = (int)vp_range(0, 3, "first"); k2 = (int)vp_range(0, 3, "second");
    op(k1, 0); op(k2, 1); if (k1 == 3 && k2 == 3) vp_witness(1); if (k1 != k2) vp_witness(2); vp_note(out.n);
    rs_free_sumset(sig); vp_assert(vp_heap_live() == 0, "memory leaked");
}
