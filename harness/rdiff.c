/* C22: the rdiff command.  rdiff's own main() runs on modelled option parsing
 * (popt), modelled stdio and stand-ins for the whole-file library calls whose
 * results are chosen by the solver. */
#include "common.h"
#include <popt.h>
#include <errno.h>
#include "sumset.h"
int rdiff_main(const int argc, const char *argv[]);
/* --- stdio model: named files, one stream each --- */
typedef struct { char name[16]; int open_r, open_w, dirty, flushed, closefail; } sfile;
static sfile files[4]; static int nfiles, out_flushed, out_dirty, flushfail, closes, exited, errs;
#ifdef VP_SYM
static char in_, out_, err_; FILE *stdin = (FILE *)&in_, *stdout = (FILE *)&out_, *stderr = (FILE *)&err_;
static int the_errno; int *__errno_location(void) { return &the_errno; }
#endif
static int missing; /* the input file named here cannot be opened */
FILE *vp_fopen(const char *name, const char *mode) {
    int w = mode[0] == 'w'; vp_assert(strchr(mode, 'b') != 0, "file not opened in binary mode");
    if (!w && name[0] == 'o') { errno = ENOENT; return 0; } /* output files do not exist beforehand */
    if (!w && name[0] == 'i' && name[1] == '0' + missing) { errno = ENOENT; return 0; }
    vp_assert(nfiles < 4, "too many files opened"); sfile *f = &files[nfiles++]; strcpy(f->name, name); f->open_r = !w; f->open_w = w; return (FILE *)f;
}
static int is(FILE *f, const char *name, int w) { if (!name) return f == (w ? stdout : stdin); return f != stdin && f != stdout && !strcmp(((sfile *)f)->name, name) && (w ? ((sfile *)f)->open_w : ((sfile *)f)->open_r); }
static void wrote(FILE *f) { if (f == stdout) out_dirty = 1; else ((sfile *)f)->dirty = 1; }
int vp_fclose(FILE *ff) { vp_assert(ff != stdin && ff != stdout && ff != stderr, "closing a standard stream"); sfile *f = (sfile *)ff; vp_assert(f->open_r || f->open_w, "closing a file twice"); f->open_r = f->open_w = 0; if (f->dirty) { f->flushed = 1; if (flushfail) return -1; } return 0; }
int vp_fflush(FILE *f) { if (f == stdout) { out_flushed = 1; return out_dirty && flushfail ? -1 : 0; } return 0; }
int vp_ferror(FILE *f) { (void)f; return 0; }
int vp_fprintf(FILE *f, const char *fmt, ...) { (void)fmt; if (f == stderr) errs++; return 0; }
int vp_printf(const char *fmt, ...) { (void)fmt; return 0; }
int vp_vsnprintf(char *b, size_t n, const char *fmt, va_list va) { (void)fmt; (void)va; if (n) b[0] = 0; return 0; }
int vp_atoi(const char *s) { (void)s; return 3; }
char *vp_strerror(int e) { (void)e; return "error"; }
/* --- popt model --- */
static const char *words[5]; static int nwords, nextword;
static struct { const char *l; char s; int arg; const char *str; } given[3]; static int ngiven, nextopt;
static const struct poptOption *table;
poptContext poptGetContext(const char *name, int argc, const char **argv, const struct poptOption *o, unsigned flags) { (void)name; (void)argc; (void)argv; (void)flags; table = o; return (poptContext)&nwords; }
poptContext poptFreeContext(poptContext c) { (void)c; return 0; }
int poptGetNextOpt(poptContext c) {
    (void)c;
    while (nextopt < ngiven) {
        int i, k = nextopt++; const struct poptOption *o = 0;
        for (i = 0; table[i].longName || table[i].shortName || table[i].arg; i++) if ((given[k].l && table[i].longName && !strcmp(given[k].l, table[i].longName)) || (given[k].s && table[i].shortName == given[k].s)) { o = &table[i]; break; }
        if (!o) return POPT_ERROR_BADOPT;
        if (o->arg) { if ((o->argInfo & 15) == POPT_ARG_INT) *(int *)o->arg = given[k].arg; else if ((o->argInfo & 15) == POPT_ARG_STRING) *(const char **)o->arg = given[k].str; else *(int *)o->arg = 1; }
        if (o->val) return o->val;
    }
    return -1;
}
char *poptGetOptArg(poptContext c) { (void)c; return 0; }
const char *poptGetArg(poptContext c) { (void)c; return nextword < nwords ? words[nextword++] : 0; }
const char *poptStrerror(const int e) { (void)e; return "bad"; }
const char *poptBadOption(poptContext c, unsigned f) { (void)c; (void)f; return "-x"; }
/* --- the library --- */
static rs_result results[3]; static int ncalls; static int want_b, want_S, want_magic = RS_RK_BLAKE2_SIG_MAGIC, act, freed, built, logged; static const char *f1, *f2, *f3; static rs_signature_t thesig;
extern int rs_inbuflen, rs_outbuflen; static int want_in, want_out;
static rs_result libres(void) { vp_assert(rs_inbuflen == want_in && rs_outbuflen == want_out, "buffer size option lost"); return results[ncalls++]; }
rs_result rs_sig_file(FILE *o, FILE *s, size_t b, size_t S, rs_magic_number m, rs_stats_t *st) {
    vp_assert(act == 0 && ncalls == 0, "wrong library call"); vp_assert(is(o, f1, 0) && is(s, f2, 1), "signature made from or into the wrong file");
    vp_assert(b == (size_t)want_b && S == (size_t)want_S, "block or sum size option lost"); vp_assert((int)m == want_magic, "hash options select the wrong format"); wrote(s); memset(st, 0, sizeof *st); return libres();
}
rs_result rs_loadsig_file(FILE *s, rs_signature_t **sig, rs_stats_t *st) { vp_assert(act == 1 && ncalls == 0 && is(s, f1, 0), "signature loaded from the wrong file"); *sig = &thesig; memset(st, 0, sizeof *st); return libres(); }
rs_result rs_build_hash_table(rs_signature_t *s) { vp_assert(s == &thesig && ncalls == 1 && results[0] == RS_DONE, "hash table built from a signature that was not loaded"); built = 1; return libres(); }
rs_result rs_delta_file(rs_signature_t *s, FILE *n, FILE *d, rs_stats_t *st) { vp_assert(s == &thesig && built && results[1] == RS_DONE && is(n, f2, 0) && is(d, f3, 1), "delta made from or into the wrong file"); wrote(d); memset(st, 0, sizeof *st); return libres(); }
rs_result rs_patch_file(FILE *b, FILE *d, FILE *n, rs_stats_t *st) { vp_assert(act == 2 && ncalls == 0 && is(b, f1, 0) && is(d, f2, 0) && is(n, f3, 1), "patch from or into the wrong file"); wrote(n); memset(st, 0, sizeof *st); return libres(); }
int rs_log_stats(rs_stats_t const *s) { (void)s; logged++; return 0; }
void rs_signature_log_stats(rs_signature_t const *s) { (void)s; }
void rs_free_sumset(rs_signature_t *s) { vp_assert(s == &thesig && !freed, "signature freed twice"); freed = 1; }
enum { GO, INFO, BAD, UNIMPL }; static int usage_error, stop, hashbad, sumbad;
static void finish(int code) {
    int i, n = act == 1 ? 3 : 1; rs_result bad = RS_DONE;
    if (stop == INFO) { vp_assert(code == 0, "help or version request failed"); vp_assert(!ncalls, "help or version request did something else"); vp_witness(1); vp_note(code); vp_done(); }
    if (stop == UNIMPL) { vp_assert(code == RS_UNIMPLEMENTED && !ncalls, "unimplemented option not refused"); vp_done(); }
    if (stop == BAD || usage_error || ((hashbad || sumbad) && !missing)) { vp_assert(code == RS_SYNTAX_ERROR, "bad command line accepted"); vp_assert(!ncalls, "bad command line acted on"); vp_assert(errs > 0, "bad command line not explained"); vp_witness(2); vp_note(code); vp_done(); }
    if (missing && code) { vp_assert(code == RS_IO_ERROR && !ncalls, "missing input file not reported"); vp_witness(3); vp_done(); }
    vp_assert(!missing, "missing input file ignored");
    for (i = 0; i < n && bad == RS_DONE; i++) { bad = results[i]; vp_assert(ncalls > i, "a step was left out"); }
    if (bad != RS_DONE) { vp_assert(code == (int)bad, "exit status is not the failure's"); vp_assert(errs > 0, "failure not reported"); vp_witness(4); }
    else {
        int flushed = 0; for (i = 0; i < nfiles; i++) if (files[i].dirty && files[i].flushed) flushed = 1; if (out_dirty && out_flushed) flushed = 1;
        if (flushfail) { vp_assert(code != 0, "exit status 0 although the output could not be written"); vp_witness(5); }
        else { vp_assert(code == 0, "failed although everything went well"); vp_assert(flushed, "output not written out"); vp_witness(6); }
    }
    vp_note(code); vp_note(nfiles); vp_done();
}
void vp_exit(int c) { finish(c); for (;;) ; }
/* PART 2: action, hash and rolling sum names of up to NLEN arbitrary characters. */
#ifdef NLEN
static int prefix(const char *a, const char *full) { int i; if (!a[0]) return 0; for (i = 0; a[i]; i++) if (a[i] != full[i]) return 0; return 1; }
static void arbitrary(char *w) { int i, n = (int)vp_range(1, NLEN, "len"); for (i = 0; i < n; i++) { w[i] = (char)vp_nd(8, "c"); vp_assume(w[i] != 0); } }
static void names_main(void) {
    static char w[NLEN + 1], h[NLEN + 1], r[NLEN + 1]; static const char *const names[2][4] = { { "i1", "o2", 0, 0 }, { "i1", "i2", "o3", 0 } }; int i, which = (int)vp_range(0, 2, "which");
    if (which == 0) { arbitrary(w); words[nwords++] = w; act = prefix(w, "signature") ? 0 : prefix(w, "delta") ? 1 : prefix(w, "patch") ? 2 : 3; }
    else words[nwords++] = "signature";
    if (act == 3) usage_error = 1;
    for (i = 0; i < (act == 0 ? 2 : 3); i++) words[nwords++] = names[act != 0][i];
    f1 = names[act != 0][0]; f2 = names[act != 0][1]; f3 = names[act != 0][2];
    if (which == 1) { arbitrary(h); given[ngiven].s = 'H'; given[ngiven++].str = h; if (!strcmp(h, "md4")) want_magic = 0x72730146; else if (strcmp(h, "blake2")) hashbad = 1; }
    if (which == 2) { arbitrary(r); given[ngiven].s = 'R'; given[ngiven++].str = r; if (!strcmp(r, "rollsum")) want_magic = 0x72730137; else if (strcmp(r, "rabinkarp")) sumbad = 1; }
    finish(rdiff_main(1, words));
}
#endif
void vp_main(void) {
#ifdef NLEN
    names_main();
#endif
    static const char *const acts[3][3] = { { "signature", "sig", "s" }, { "delta", "delt", "d" }, { "patch", "pat", "p" } };
    static const char *const hashes[] = { "blake2", "md4", "sha1" }, *const sums[] = { "rabinkarp", "rollsum", "adler" };
    int i, nf, h; 
    act = (int)vp_range(0, 3, "action"); nf = (int)vp_range(0, 4, "files");
    if (act == 3) { if (nf > 1) vp_done(); if (nf) { words[nwords++] = nf == 1 ? "merge" : ""; } usage_error = 1; }
    else {
        int spell = (int)vp_range(0, 2, "spelling"), maxf = act == 0 ? 2 : 3, minf = act == 0 ? 0 : 1;
        words[nwords++] = acts[act][spell];
        static const char *const names[2][4] = { { "i1", "o2", "x3", "x4" }, { "i1", "i2", "o3", "x4" } };
        for (i = 0; i < nf; i++) words[nwords++] = names[act != 0][i];
        if (nf < minf || nf > maxf) usage_error = 1;
        f1 = nf > 0 ? names[act != 0][0] : 0; f2 = nf > 1 ? names[act != 0][1] : 0; f3 = nf > 2 ? names[act != 0][2] : 0;
        if (nf && !usage_error) { missing = (int)vp_range(0, 2, "missing"); if (missing == 2 && (act == 0 || nf < 2)) missing = 0; }
    }
    /* one or two options */
    ngiven = (int)vp_range(0, 2, "options");
    for (i = 0; i < ngiven; i++) {
        int o = (int)vp_range(0, 12, "opt"), longform = (int)vp_range(0, 1, "long");
#define OPT(L, S) do { if (longform) given[i].l = L; else given[i].s = S; } while (0)
        switch (o) {
        case 0: OPT("block-size", 'b'); want_b = given[i].arg = (int)ND32("b"); vp_assume(want_b >= 0); break;
        case 1: OPT("sum-size", 'S'); want_S = given[i].arg = (int)ND32("S"); vp_assume(want_S >= -1); break;
        case 2: OPT("hash", 'H'); h = (int)vp_range(0, 2, "hash"); given[i].str = hashes[h]; want_magic = (want_magic & ~0xf) | (h == 1 ? 6 : 7); if (act == 0) hashbad = h == 2; break;
        case 3: OPT("rollsum", 'R'); h = (int)vp_range(0, 2, "sum"); given[i].str = sums[h]; want_magic = (want_magic & ~0xf0) | (h == 1 ? 0x30 : 0x40); if (act == 0) sumbad = h == 2; break;
        case 4: OPT("force", 'f'); break;
        case 5: OPT("statistics", 's'); break;
        case 6: OPT("verbose", 'v'); break;
        case 7: OPT("version", 'V'); if (!stop) stop = INFO; break;
        case 8: OPT("help", '?'); if (!stop) stop = INFO; break;
        case 9: given[i].l = "no-such-option"; if (!stop) stop = BAD; break;
        case 11: OPT("input-size", 'I'); want_in = given[i].arg = (int)ND32("I"); break;
        case 12: OPT("output-size", 'O'); want_out = given[i].arg = (int)ND32("O"); break;
        case 10: OPT("gzip", 'z'); if (!stop) stop = UNIMPL; break;
        }
    }
    for (i = 0; i < 3; i++) { static const rs_result rr[] = { RS_DONE, RS_IO_ERROR, RS_CORRUPT, RS_BAD_MAGIC, RS_MEM_ERROR }; results[i] = i && results[i - 1] != RS_DONE ? RS_DONE : rr[vp_range(0, 4, "result")]; if (act != 1 || usage_error) break; }
    flushfail = (int)vp_range(0, 1, "flushfail");
    int code = rdiff_main(1, words);
    finish(code);
}
