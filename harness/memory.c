/* C25: the heap a job holds is bounded by its block length and the areas it is
 * offered, not by the length of the streams or the lengths claimed in them.
 * The library's allocations are counted.
 * PART 1 arbitrary deltas, 2 arbitrary signatures, 3 long streams. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#ifndef N
#define N 10
#endif
#ifndef BL
#define BL 16
#endif
#ifndef LEN
#define LEN 3000
#endif
#ifndef NS
#define NS 1, 7, 50, 300
#define MM 3, 40, 1000
#endif
#define NNS (sizeof ns / sizeof *ns - 1)
#define NMM (sizeof mm / sizeof *mm - 1)
#ifdef LIBRSYNC_VERIF_MAX_DELTA_CMD
#define CMD LIBRSYNC_VERIF_MAX_DELTA_CMD
#else
#define CMD 65536
#endif
typedef union { size_t n; long double align; } hdr_t;
static size_t cur, peak, bound;
static void grow(size_t n) { vp_assert(n <= bound && cur + n <= bound, "a job holds more memory than its block length and buffers call for"); cur += n; if (cur > peak) peak = cur; }
void *vp_malloc(size_t n) { grow(n); n = vp_concrete(n); hdr_t *h = malloc(sizeof *h + n); h->n = n; return h + 1; }
void vp_free(void *p) { if (!p) return; hdr_t *h = (hdr_t *)p - 1; cur -= h->n; free(h); }
void *vp_calloc(size_t a, size_t b) { size_t n; vp_assert(!__builtin_mul_overflow(a, b, &n), "calloc overflow"); void *p = vp_malloc(n); memset(p, 0, ((hdr_t *)p - 1)->n); return p; }
void *vp_realloc(void *p, size_t n) { if (!p) return vp_malloc(n); void *q = vp_malloc(n); hdr_t *h = (hdr_t *)p - 1; size_t k = h->n < ((hdr_t *)q - 1)->n ? h->n : ((hdr_t *)q - 1)->n; memcpy(q, p, k); vp_free(p); return q; }
static rs_result cb(void *o, rs_long_t pos, size_t *len, void **buf) { (void)o; (void)pos; (void)buf; 
#if PART == 1 /* one byte, then nothing */
    static int k; if (k++) return RS_IO_ERROR; ((u8 *)*buf)[0] = 'c'; *len = 1; return RS_DONE;
#else
    size_t l = *len > 3 ? 3 : vp_concrete(*len); memset(*buf, 'c', l); *len = l; return RS_DONE;
#endif
}
#if PART == 3
/* Windows beginning with each of the four letters match a block or none. */
static uint64_t answer[4];
rs_long_t rs_signature_find_match(rs_signature_t *sig, rs_weak_sum_t weak, void const *buf, size_t len) {
    uint64_t v = answer[((const u8 *)buf)[0] & 3]; (void)sig; (void)weak; (void)len; return v & 1 ? (rs_long_t)((const u8 *)buf)[0] * BL : -1;
}
static u8 in[LEN + 1], out[3 * LEN + 200];
/* The stream goes through areas of n and m bytes; the output is dropped unless kept. */
static rs_result pump(rs_job_t *j, const u8 *p, size_t len, size_t n, size_t m, int keep, size_t *got) {
    size_t pos = 0, i; rs_result r; static u8 o[100000]; int idle = 0; *got = 0;
    do { rs_buffers_t b; size_t k = len - pos < n ? len - pos : n; u8 *q = malloc(k); for (i = 0; i < k; i++) q[i] = p[pos + i];
        b.next_in = (char *)q; b.avail_in = k; b.eof_in = pos + k == len; b.next_out = (char *)o; b.avail_out = m; r = rs_job_iter(j, &b);
        idle = k == b.avail_in && m == b.avail_out ? idle + 1 : 0; vp_assert(idle < 3, "no progress"); pos += k - b.avail_in; if (keep) { vp_assert(*got + m - b.avail_out <= sizeof out, "harness: output area"); memcpy(out + *got, o, m - b.avail_out); } *got += m - b.avail_out; free(q);
    } while (r == RS_BLOCKED); return r;
}
#endif
void vp_main(void) {
    size_t i;
#if PART == 1
    static u8 d[N + 4], o[64]; int mode = vp_range(0, 1, "mode") ? S_BYTE : S_WHOLE; put4(d, 0x72730236); for (i = 0; i < N; i++) d[4 + i] = ND8("d");
    bound = 4096; rs_job_t *j = rs_patch_begin(cb, 0); io_t io = { d, N + 4, 0, o, 12, 0 }; rs_result r = RS_BLOCKED; int k;
    for (k = 0; k < 24 && r == RS_BLOCKED; k++) { size_t n = N + 4 - io.pos, m = io.cap - io.got; if (mode == S_BYTE && n) n = 1; r = io_step(j, &io, n, m, io.pos + n == N + 4); if (io.got == io.cap) break; }
    if (r == RS_DONE) vp_witness(1); if (r == RS_BLOCKED) vp_witness(2); if (r > RS_RUNNING) vp_witness(3); vp_note(r); vp_note(peak); rs_job_free(j);
#elif PART == 2
    static u8 d[12 + N]; u8 none[1]; rs_signature_t *sig; static const int mags[] = { 0, 1, 2, 3 }; put4(d, ref_magics[mags[vp_range(0, 3, "magic")]]); for (i = 4; i < 12 + N; i++) d[i] = ND8("d");
    bound = 4096 + 64 * N; rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { d, 12 + N, 0, none, 0, 0 }; rs_result r = io_run(j, &io, vp_range(0, 1, "mode") ? S_BYTEIN : S_WHOLE);
    if (r == RS_DONE) { vp_witness(1); bound += 64 * N; vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built"); } else vp_witness(3); vp_note(r); vp_note(peak); rs_job_free(j); rs_free_sumset(sig);
#else
    static const size_t ns[] = { NS }, mm[] = { MM }; u8 sb[12 + 12]; int kind = (int)vp_range(0, 3, "kind"); size_t n = kind == 3 ? 300 : ns[vp_range(0, NNS, "n")], m = kind == 3 ? 1000 : mm[vp_range(0, NMM, "m")], got, sn; int mix = (int)vp_range(0, 1, "mix");
    uint32_t l = 5; for (i = 0; i < LEN; i++) { l = l * 1103515245 + 12345; in[i] = mix ? l >> 28 & 3 : i / 700 & 3; }
    bound = (size_t)1 << 30;
    if (kind == 0) { bound = 4096 + 8 * (BL + n); rs_job_t *j = rs_sig_begin(BL, 8, RS_BLAKE2_SIG_MAGIC); vp_assert(pump(j, in, LEN, n, m, 0, &got) == RS_DONE, "signature failed"); rs_job_free(j); vp_assert(got == 12 + 12 * ((LEN + BL - 1) / BL), "signature of wrong length"); vp_witness(1); }
    else { rs_signature_t *sig = 0; rs_job_t *j;
        if (kind != 2) { memset(sb, 0, sizeof sb); put4(sb, RS_RK_BLAKE2_SIG_MAGIC); put4(sb + 4, BL); put4(sb + 8, 8); j = rs_loadsig_begin(&sig); vp_assert(pump(j, sb, sizeof sb, 1000, 0, 0, &got) == RS_DONE, "signature rejected"); rs_job_free(j); vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash table not built"); }
        for (i = 0; i < 4; i++) answer[i] = ND64("answer");
        /* output that is not taken as fast as input is offered makes a delta job buffer its input: see DESIGN.md */
        if (kind == 1 && m < n + 8) m = n + 8;
        bound = cur + 4096 + 8 * (BL + CMD + n);
        j = rs_delta_begin(sig); vp_assert(pump(j, in, LEN, n, m, kind == 3, &got) == RS_DONE, "delta failed"); rs_job_free(j); if (sig) rs_free_sumset(sig); vp_witness(kind == 2 ? 2 : 3);
        if (kind == 3) { n = ns[vp_range(0, NNS, "n2")]; m = mm[vp_range(0, NMM, "m2")]; sn = got; bound = cur + 4096 + 8 * n; j = rs_patch_begin(cb, 0); rs_result r = pump(j, out, sn, n, m, 0, &got); vp_assert(r == RS_DONE && got == LEN, "patch failed"); rs_job_free(j); vp_witness(4); }
    }
    vp_note(peak); vp_note(got);
#endif
    vp_assert(cur == 0 && vp_heap_live() == 0, "memory leaked");
}
