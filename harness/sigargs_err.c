/* Signature jobs with unacceptable parameters fail before any output. */
#include "common.h"
void vp_main(void) {
    uint32_t magic = ND32("magic"); static u8 in[2], out[64]; uint64_t sl = ND64("sl"), bl = ND64("bl");
    in[0] = ND8("b"); in[1] = ND8("b");
    int md4 = magic == 0x72730136 || magic == 0x72730146, b2 = magic == 0 || magic == 0x72730137 || magic == 0x72730147;
    vp_assume(sl != (size_t)-1);
    int bad_magic = !md4 && !b2, bad_len = sl > (md4 ? 16 : 32) || bl > 0x7fffffff;
    vp_assume(bad_magic || bad_len);
    rs_job_t *job = rs_sig_begin(bl, sl, magic);
    io_t io = { in, 2, 0, out, 12, 0 };
    rs_result r = io_run(job, &io, S_WHOLE);
    vp_assert(r == (bad_magic ? RS_BAD_MAGIC : RS_PARAM_ERROR), "bad signature parameters accepted");
    vp_assert(io.got == 0, "output from a job with bad parameters");
    vp_witness(1); if (!bad_magic) vp_witness(2);
    vp_note(r);
    rs_job_free(job); vp_assert(vp_heap_live() == 0, "memory leaked");
}
