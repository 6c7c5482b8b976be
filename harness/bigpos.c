/* C16: rs_patch_file reads the basis at the position each copy command says,
 * for every 63-bit position.  The basis is a sparse file: its bytes are a
 * function of their position, it may end anywhere, and reads may be short. */
#include "common.h"
#include <errno.h>
static u8 db[32]; static size_t dn, dp; static u8 ob[64]; static size_t on; static int deof;
static uint64_t pos, len, at = 77, size_; static int shorts = 1;
static u8 D, O, B;
static u8 byte_at(uint64_t p) { return (u8)(p ^ p >> 31 ^ p >> 32 ^ p >> 62); }
size_t vp_fread(void *p, size_t sz, size_t cnt, FILE *f) {
    size_t i, n = sz * cnt;
    if ((u8 *)f == &D) { size_t l = dn - dp; if (l < n) { deof = 1; n = l; } for (i = 0; i < n; i++) ((u8 *)p)[i] = db[dp++]; return n; }
    vp_assert((u8 *)f == &B, "reading another file");
    n = (size_t)vp_concrete(at >= size_ ? 0 : n < size_ - at ? n : size_ - at); if (n > 1 && shorts && vp_range(0, 1, "short")) { shorts--; n = 1; }
    for (i = 0; i < n; i++) ((u8 *)p)[i] = byte_at(at + i); at += n; return n;
}
size_t vp_fwrite(const void *p, size_t sz, size_t cnt, FILE *f) { size_t i; vp_assert((u8 *)f == &O, "writing another file"); vp_assert(on + sz * cnt <= sizeof ob, "more output than can be right"); for (i = 0; i < sz * cnt; i++) ob[on++] = ((const u8 *)p)[i]; return cnt; }
int vp_feof(FILE *f) { return (u8 *)f == &D ? deof : 1; }
int vp_ferror(FILE *f) { (void)f; return 0; }
int vp_fileno(FILE *f) { (void)f; return 3; }
int vp_fseeko(FILE *f, off_t o, int wh) { vp_assert((u8 *)f == &B && wh == SEEK_SET, "harness: seek"); if (o < 0) { errno = EINVAL; return -1; } at = (uint64_t)o; return 0; }
int vp_fseek(FILE *f, long o, int wh) { return vp_fseeko(f, o, wh); }
char *vp_strerror(int e) { (void)e; return "error"; }
#ifdef VP_SYM
static int the_errno; int *__errno_location(void) { return &the_errno; }
#endif
void vp_main(void) {
    static const int sz[4] = { 1, 2, 4, 8 }; int a = (int)vp_range(0, 3, "pw"), b = (int)vp_range(0, 3, "lw"); size_t n = 0, i; rs_stats_t st;
    pos = ND64("pos"); len = vp_range(1, 3, "len"); vp_assume(pos <= 0x7fffffffffffffffull - len); if (a < 3) vp_assume(pos < 1ull << 8 * sz[a]);
    size_ = ND64("size"); vp_assume(size_ <= 0x7fffffffffffffffull);
    db[n++] = 0x72; db[n++] = 0x73; db[n++] = 2; db[n++] = 0x36; db[n++] = 0x45 + 4 * a + b;
    for (i = sz[a]; i--;) db[n++] = pos >> 8 * i; for (i = sz[b]; i--;) db[n++] = len >> 8 * i;
    db[n++] = 0; dn = n; rs_inbuflen = (int)vp_range(0, 1, "in") * 12; rs_outbuflen = (int)vp_range(0, 1, "out") * 2;
    rs_result r = rs_patch_file((FILE *)&B, (FILE *)&D, (FILE *)&O, &st);
    uint64_t have = size_ <= pos ? 0 : size_ - pos < len ? size_ - pos : len;
    if (have == len) { vp_assert(r == RS_DONE, "a good delta failed"); vp_assert(on == len, "wrong amount of output"); vp_assert(st.copy_bytes == (rs_long_t)len && st.out_bytes == (rs_long_t)len && st.in_bytes == (rs_long_t)dn, "statistics wrong"); vp_witness(1); }
    else { vp_assert(r == RS_INPUT_ENDED, "a copy beyond the end of the basis was not reported"); vp_assert(on <= have, "output beyond the end of the basis"); vp_witness(2); }
    for (i = 0; i < on; i++) vp_assert(ob[i] == byte_at(pos + i), "output byte is not the one at the position of the basis");
    vp_note(r); vp_note(on); vp_assert(vp_heap_live() == 0, "memory leaked");
}
