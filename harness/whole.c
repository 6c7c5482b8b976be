/* C16: the whole-file functions with short reads, faults at any call and any
 * buffer sizes.  KIND 1 signature, 2 load signature, 3 delta, 4 patch. */
#include "common.h"
#include "refs.h"
#include "sumset.h"
#include "vfile.h"
#ifndef N
#define N 5
#endif
#ifndef SHORTS
#define SHORTS 1
#endif
#ifndef FAULTS
#define FAULTS 1
#endif
#ifndef BUFMAX
#define BUFMAX 3
#endif
#define CAP 512
static u8 ib[CAP], ob[CAP], bb[8], ref[CAP]; static size_t in_n, rn;
static u8 symb(void) { return ND8("d"); }
void vp_main(void) {
    size_t i, k; rs_result r; rs_stats_t st; rs_signature_t *sig = 0; int magic = 0x72730147, nofault_ok = 1; rs_result badres = RS_IO_ERROR;
    vfile in = { ib, 0, 0, 0, 0, 0, 3, 0 }, out = { ob, 0, CAP, 0, 0, 0, 4, 1 }, basis = { bb, 0, 0, 0, 0, 0, 5, 0 };
    memset(&st, 0x55, sizeof st);
    rs_inbuflen = (int)vp_range(0, BUFMAX, "inbuf"); rs_outbuflen = (int)vp_range(0, BUFMAX, "outbuf");
    fstat_mode = (int)vp_range(0, 2, "fstat");
    budget_short = SHORTS; budget_fault = FAULTS;
#if KIND == 1
    in_n = vp_range(0, N, "n"); for (i = 0; i < in_n; i++) ib[i] = symb();
    put4(ref, magic); put4(ref + 4, 2); put4(ref + 8, 5); rn = 12;
    for (i = 0; i < in_n; i += 2) { size_t l = in_n - i < 2 ? 1 : 2; u8 s[32]; put4(ref + rn, ref_weak(magic, ib + i, l)); ref_strong(magic, ib + i, l, s); memcpy(ref + rn + 4, s, 5); rn += 9; }
    in.n = in_n; fstat_size[3] = vp_range(0, 1, "size") ? (int64_t)in_n : 100000;
    r = rs_sig_file((FILE *)&in, (FILE *)&out, 2, 5, magic, &st);
#elif KIND == 2
    put4(ib, magic); put4(ib + 4, 2); put4(ib + 8, 2); in_n = 12; k = vp_range(0, 2, "blocks"); for (i = 0; i < 6 * k; i++) ib[in_n++] = symb();
    in.n = in_n; fstat_size[3] = vp_range(0, 2, "size") * 14; rn = 0;
    r = rs_loadsig_file((FILE *)&in, &sig, &st);
#elif KIND == 3
    { static u8 s[32]; rs_job_t *j = rs_loadsig_begin(&sig); put4(s, magic); put4(s + 4, 2); put4(s + 8, 2); put4(s + 12, ref_weak(magic, (u8 *)"ab", 2)); s[16] = 2; s[17] = 'a'; io_t io = { s, 18, 0, s, 0, 0 };
      vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "sig"); rs_job_free(j); vp_assert(rs_build_hash_table(sig) == RS_DONE, "hash"); }
    in_n = vp_range(0, N, "n"); for (i = 0; i < in_n; i++) ib[i] = i == 1 ? symb() : "aababababab"[i]; in.n = in_n;
    r = rs_delta_file(sig, (FILE *)&in, (FILE *)&out, &st);
#elif KIND == 4
    for (i = 0; i < 4; i++) bb[i] = symb(); basis.n = 4;
    put4(ib, 0x72730236); in_n = 4; ib[in_n++] = 2; ref[rn++] = ib[in_n++] = symb(); ref[rn++] = ib[in_n++] = symb();
    { size_t p = vp_range(0, 4, "pos"), l = vp_range(1, 3, "len"); ib[in_n++] = 0x45; ib[in_n++] = p; ib[in_n++] = l; if (p + l > 4) { nofault_ok = 0; badres = RS_INPUT_ENDED; if (l > 4 - p) l = 4 - p; } memcpy(ref + rn, bb + p, l); rn += l; }
    ib[in_n++] = 1; ib[in_n] = symb(); if (nofault_ok) ref[rn++] = ib[in_n]; in_n++; k = vp_range(0, 1, "end"); if (k) ib[in_n++] = 0; else if (nofault_ok) { nofault_ok = 0; badres = RS_INPUT_ENDED; }
    in.n = in_n;
    r = rs_patch_file((FILE *)&basis, (FILE *)&in, (FILE *)&out, &st);
#endif
    if (r == RS_DONE) {
        vp_assert(nofault_ok, "a bad file was accepted");
#if KIND == 3 /* decode: literal or copy of 0,2 */
        { size_t p = 4, q = 0; vp_assert(out.n >= 5, "short delta"); for (;;) { vp_assert(p < out.n, "delta truncated"); unsigned op = vp_concrete(ob[p++]); if (!op) break;
            if (op <= 0x40) for (; op; op--) { vp_assert(q < in_n && p < out.n && ob[p++] == ib[q++], "wrong literal"); } else { vp_assert(op == 0x45 && ob[p] == 0 && ob[p + 1] == 2, "wrong copy"); p += 2; vp_assert(q + 2 <= in_n && ib[q] == 'a' && ib[q + 1] == 'b', "copy of a block that does not match"); q += 2; } }
          vp_assert(q == in_n && p == out.n, "delta does not describe the new file"); }
#else
        vp_assert(out.n == rn, "wrong amount of output in the file"); for (i = 0; i < rn; i++) vp_assert(ob[i] == ref[i], "wrong output byte in the file");
#endif
#if KIND == 2
        vp_assert((size_t)sig->count == k, "wrong number of blocks loaded");
#endif
        vp_assert(st.in_bytes == (rs_long_t)in_n && st.out_bytes == (rs_long_t)out.n, "input or output byte counts wrong");
        vp_assert(!faulted, "a read, write or seek error was not reported");
        vp_witness(1);
    } else {
        if (soft && !faulted) vp_assert(r == RS_IO_ERROR || (r == badres && !nofault_ok), "a fault was reported as something else");
        else if (!faulted) { vp_assert(!nofault_ok, "failed without any fault"); vp_assert(r == badres, "wrong error for a bad file"); }
        else vp_assert(r == RS_IO_ERROR || (r == badres && !nofault_ok), "a fault was reported as something else");
#if KIND == 4 || KIND == 1
        vp_assert(out.n <= rn, "output beyond the correct file"); for (i = 0; i < out.n; i++) vp_assert(ob[i] == ref[i], "wrong output byte in the file");
#endif
        vp_witness(2);
    }
    vp_note(r); vp_note(out.n); vp_note(nreads); vp_note(nwrites);
    if (sig) rs_free_sumset(sig);
    vp_assert(vp_heap_live() == 0, "memory leaked");
}
