/* C19: every result code has a description of its own. */
#include "common.h"
void vp_main(void) {
    static const int codes[] = { RS_DONE, RS_BLOCKED, RS_RUNNING, RS_IO_ERROR, RS_SYNTAX_ERROR, RS_MEM_ERROR, RS_INPUT_ENDED, RS_BAD_MAGIC, RS_UNIMPLEMENTED, RS_CORRUPT, RS_INTERNAL_ERROR, RS_PARAM_ERROR };
    int r = (int)ND32("r"), known = 0; size_t i;
    const char *s = rs_strerror(r); vp_assert(s != 0 && s[0] != 0, "no description");
    for (i = 0; i < sizeof codes / sizeof *codes; i++) if (r == codes[i]) known = 1; else vp_assert(strcmp(s, rs_strerror(codes[i])) != 0, "two results share a description");
    vp_witness(known); vp_note(s[0]);
}
