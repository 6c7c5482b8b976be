/* Files of the stdio model: short transfers and faults at any call. */
#ifndef VFILE_H
#define VFILE_H
#include <errno.h>
#include <sys/stat.h>
typedef struct { u8 *data; size_t n, cap, pos; int eof, err, fd, wr; int64_t seeked; } vfile;
static int budget_short, budget_fault, faulted, soft, calls_after_fault, nreads, nwrites;
/* Chooses between full transfer, a short one and a failure, within the budgets. */
static size_t transfer(vfile *f, size_t want, int read) {
    (void)f; (void)read;
    if (budget_fault && vp_range(0, 1, "fault")) {
        size_t some; budget_fault--; f->err = 1; errno = EIO; some = want ? vp_range(0, want > 2 ? 2 : want - 1, "before fault") : 0;
        if (f->fd == 5 && some) soft = 1; else faulted++; /* a basis read that gave something may be retried */
        return some;
    }
    if (read && budget_short && want > 1 && vp_range(0, 1, "short")) { budget_short--; return vp_range(1, want > 3 ? 3 : want - 1, "some"); }
    return want;
}
size_t vp_fread(void *p, size_t sz, size_t cnt, FILE *ff) {
    vfile *f = (vfile *)ff; size_t want = sz * cnt, left = f->n - f->pos, i; nreads++;
    vp_assert(!f->wr, "reading the output file");
    vp_assert(sz == 1, "harness: item size");
    if (f->err && f->fd == 3) { errno = EIO; return 0; } /* the error persists */
    if (f->eof) return 0; /* as the end-of-file indicator is */
    size_t give = want < left ? want : left, got = transfer(f, give, 1);
    if (f->err) { if (got > give) got = give; } else if (got == left && want > left) f->eof = 1;
    for (i = 0; i < got; i++) ((u8 *)p)[i] = f->data[f->pos + i];
    if (want) ((u8 *)p)[want - 1] = ((u8 *)p)[want - 1]; /* the whole area must be writable */
    f->pos += got; return got;
}
size_t vp_fwrite(const void *p, size_t sz, size_t cnt, FILE *ff) {
    vfile *f = (vfile *)ff; size_t want = sz * cnt, i, got; nwrites++;
    vp_assert(f->wr, "writing an input file"); vp_assert(sz == 1, "harness: item size");
    vp_assert(!f->err, "writing on after a write error");
    got = transfer(f, want, 0);
    vp_assert(f->n + got <= f->cap, "more output than can be right");
    for (i = 0; i < got; i++) f->data[f->n + i] = ((const u8 *)p)[i];
    f->n += got; return got;
}
int vp_feof(FILE *ff) { return ((vfile *)ff)->eof; }
int vp_ferror(FILE *ff) { return ((vfile *)ff)->err; }
int vp_fileno(FILE *ff) { return ((vfile *)ff)->fd; }
int vp_fseeko(FILE *ff, off_t o, int wh) {
    vfile *f = (vfile *)ff; vp_assert(wh == SEEK_SET && o >= 0, "harness: seek");
    if (budget_fault && vp_range(0, 1, "seekfault")) { budget_fault--; faulted++; errno = EIO; return -1; }
    f->eof = 0; f->pos = (uint64_t)o > f->n ? f->n : vp_concrete(o); return 0;
}
int vp_fseek(FILE *ff, long o, int wh) { return vp_fseeko(ff, o, wh); }
static int fstat_mode; static int64_t fstat_size[8];
int vp_fstat(int fd, struct stat *st) { if (fstat_mode == 2) return -1; st->st_mode = fstat_mode == 1 ? S_IFIFO | 0600 : S_IFREG | 0600; st->st_size = fstat_size[fd]; return 0; }
char *vp_strerror(int e) { (void)e; return "error"; }
#ifdef VP_SYM
static int the_errno; int *__errno_location(void) { return &the_errno; }
#endif
#define VFILE_REDIRECT fread,fwrite,feof,ferror,fileno,fseek,fseeko,fstat,strerror
#endif
