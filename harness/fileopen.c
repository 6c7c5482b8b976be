/* C17: opening files.  A file system with one name, of any
 * spelling, in any state; every open
 * may fail in any way the state allows. */
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
static int exists, readable, writable, nodir, transient, destroyed, exited = -1, opened_r, opened_w, closed, opens;
static char the_name[4]; static char file_r, file_w; static int faulty;
#ifdef VP_SYM
static char in_, out_, err_; FILE *stdin = (FILE *)&in_, *stdout = (FILE *)&out_, *stderr = (FILE *)&err_;
static int the_errno; int *__errno_location(void) { return &the_errno; }
#endif
static FILE *fail(int e) { errno = e; return NULL; }
FILE *vp_fopen(const char *name, const char *mode) {
    opens++;
    vp_assert(name == the_name || !strcmp(name, the_name), "opened some other file");
    vp_assert(mode[0] == 'r' || mode[0] == 'w', "harness: mode");
    if (transient && vp_range(0, 1, "emfile")) { transient = 0; return fail(EMFILE); }
    if (nodir) return fail(nodir == 1 ? ENOENT : nodir == 2 ? ENOTDIR : EACCES);
    if (mode[0] == 'r') { if (!exists) return fail(ENOENT); if (!readable) return fail(EACCES); opened_r++; return (FILE *)&file_r; }
    if (exists) { int excl = strchr(mode, 'x') != 0; if (excl) return fail(EEXIST); if (!writable) return fail(EACCES); destroyed = 1; }
    opened_w++; return (FILE *)&file_w;
}
int vp_fclose(FILE *f) { if (f == (FILE *)&file_r) { vp_assert(opened_r, "closing a file that is not open"); opened_r--; } else if (f == (FILE *)&file_w) { vp_assert(opened_w, "closing a file that is not open"); opened_w--; } else vp_fail("closing a stream that is not the library's"); closed++; return 0; }
int vp_fflush(FILE *f) { vp_assert(f == stdout, "flushing something else"); return 0; }
char *vp_strerror(int e) { (void)e; return "error"; }
static int force, want_w, kind;
static void finish(FILE *f, int code) {
    if (kind < 2) { /* NULL or "-" */
        vp_assert(f == (want_w ? stdout : stdin) && !opens, "standard stream not used");
        vp_assert(rs_file_close(f) == 0 && !closed, "closing a standard stream"); vp_witness(1);
    } else {
        vp_assert(force || !destroyed, "an existing file was overwritten without force");
        if (!f) { vp_assert(code == RS_IO_ERROR, "wrong exit status when a file cannot be opened"); vp_assert(!opened_r && !opened_w, "file left open"); vp_assert(!destroyed, "existing file lost"); vp_assert(faulty || nodir || (want_w ? exists && (!force || !writable) : !exists || !readable), "a file that can be opened was not");
            vp_witness(2); }
        else { vp_assert(opened_r + opened_w == 1 && f == (FILE *)(want_w ? &file_w : &file_r), "not the file asked for"); vp_assert(rs_file_close(f) == 0 && opened_r + opened_w == 0, "file not closed"); vp_witness(want_w && exists ? 3 : 4); }
    }
    vp_note(destroyed); vp_note(opens); vp_done();
}
void vp_exit(int c) { exited = c; finish(NULL, c); for (;;) ; }
void vp_main(void) {
    static const char *const names[] = { 0, "-", the_name };
    kind = (int)vp_range(0, 2, "kind"); force = (int)vp_range(0, 1, "force"); want_w = (int)vp_range(0, 1, "write");
    nodir = (int)vp_range(0, 3, "nodir"); exists = nodir ? 0 : (int)vp_range(0, 1, "exists"); readable = (int)vp_range(0, 1, "readable"); writable = (int)vp_range(0, 1, "writable"); transient = (int)vp_range(0, 1, "transient");
    faulty = transient;
    { int i; for (i = 0; i < 3; i++) the_name[i] = (char)ND8("name"); if (kind == 2) vp_assume(the_name[0] != '-' || the_name[1]); }
    FILE *f = rs_file_open(names[kind], want_w ? "wb" : "rb", force);
    vp_assert(f != 0, "null stream returned");
    finish(f, 0);
}
