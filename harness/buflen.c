/* C16: the buffer lengths the file functions ask for are usable for every block length. */
#include "common.h"
#include "whole.h"
#include "sumset.h"
static int called;
rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file, int inbuflen, int outbuflen) {
    called = 1; vp_assert(!in_file || inbuflen > 0, "input buffer length not positive"); vp_assert(!out_file || outbuflen > 0, "output buffer length not positive");
    return RS_DONE;
}
rs_long_t rs_file_size(FILE *f) { static const int64_t s[] = { -1, 0, 70000, 1ll << 33, 1ll << 61 }; return s[vp_range(0, 4, "fsize")]; }
void vp_main(void) {
    static rs_signature_t sig; static char f1, f2; uint32_t bl = ND32("bl"); rs_result r; vp_assume(bl < 0x80000000u);
    static const int mg[] = { 0x72730136, 0x72730137, 0x72730146, 0x72730147 }; int magic = mg[vp_range(0, 3, "magic")];
    if (vp_range(0, 1, "what")) { vp_assume(bl); sig.magic = magic; sig.block_len = bl; sig.strong_sum_len = 16; r = rs_delta_file(&sig, (FILE *)&f1, (FILE *)&f2, 0); vp_witness(1); }
    else { vp_assume(bl == 0 || bl > 500000000 || (bl & (bl - 1)) == 0); r = rs_sig_file((FILE *)&f1, (FILE *)&f2, bl, vp_range(0, 16, "sl"), magic, 0); vp_witness(2); }
    vp_assert(called && r == RS_DONE, "good parameters rejected");
}
