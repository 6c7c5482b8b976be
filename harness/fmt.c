/* C19: formatted text stays inside the caller's buffer.  The C library's
 * formatting is replaced by its contract: any length, truncated to the size.
 * PART 1 rs_format_stats, 2 rs_log_stats, 3 log messages, 4 log messages with
 * real formatting, 5 the dump of a signature. */
#define KEEP_LOG
#include "common.h"
#include "trace.h"
#include "refs.h"
static const int lens[] = { 0, 1, 7, 40, 200, 998, 999, 1000, 1039, 1040, 5000 };
#ifndef NLENS
#define NLENS 4
#endif
static int emit(char *buf, size_t size) {
    int L = lens[vp_range(0, NLENS - 1, "len")]; size_t w = (size_t)L < size ? (size_t)L : size - 1, i;
    if (size > ((size_t)1 << 40)) vp_fail("formatting with a size that has wrapped around");
    if (size) { for (i = 0; i < w; i++) buf[i] = 'x'; buf[w] = 0; }
    return L;
}
/* printf without floating point */
static int vfmt(char *buf, size_t size, const char *f, va_list va) {
    size_t n = 0;
#define PUT(c) do { char c_ = (c); if (n + 1 < size) buf[n] = c_; n++; } while (0)
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        int alt = 0, zero = 0, left = 0, width = 0, prec = -1, lng = 0; f++;
        for (;; f++) { if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f != '+' && *f != ' ') break; }
        if (*f == '*') { width = va_arg(va, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(va, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
        char t[32]; const char *s = t; size_t l = 0, i; unsigned long v; int neg = 0;
        switch (*f) {
        case '%': t[0] = '%'; l = 1; break;
        case 'c': t[0] = (char)va_arg(va, int); l = 1; break;
        case 's': s = va_arg(va, const char *); while ((prec < 0 || l < (size_t)prec) && s[l]) l++; break;
        case 'd': case 'i': { long x = lng ? va_arg(va, long) : va_arg(va, int); neg = x < 0; v = neg ? 0 - (unsigned long)x : (unsigned long)x; goto num; }
        case 'u': case 'x': case 'X': case 'o': v = lng ? va_arg(va, unsigned long) : va_arg(va, unsigned);
        num: { unsigned b = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 10; size_t p = sizeof t; int nz = v != 0; do { t[--p] = "0123456789abcdef"[v % b]; v /= b; } while (v); if (alt && b == 16 && nz) { t[--p] = 'x'; t[--p] = '0'; } if (neg) t[--p] = '-'; s = t + p; l = sizeof t - p; break; }
        default: vp_fail("harness: conversion not modelled");
        }
        if (!left) for (i = l; i < (size_t)width; i++) PUT(zero ? '0' : ' ');
        for (i = 0; i < l; i++) PUT(s[i]);
        if (left) for (i = l; i < (size_t)width; i++) PUT(' ');
    }
    if (size) buf[n < size ? n : size - 1] = 0;
    return (int)n;
}
int vp_sprintf(char *buf, const char *fmt, ...) { va_list va; va_start(va, fmt); int r = vfmt(buf, (size_t)1 << 40, fmt, va); va_end(va); return r; }
int vp_vsprintf(char *buf, const char *fmt, va_list va) { return vfmt(buf, (size_t)1 << 40, fmt, va); }
#if PART >= 4
int vp_snprintf(char *buf, size_t size, const char *fmt, ...) { va_list va; va_start(va, fmt); int r = vfmt(buf, size, fmt, va); va_end(va); return r; }
int vp_vsnprintf(char *buf, size_t size, const char *fmt, va_list va) { return vfmt(buf, size, fmt, va); }
#else
int vp_snprintf(char *buf, size_t size, const char *fmt, ...) { (void)fmt; return emit(buf, size); }
int vp_vsnprintf(char *buf, size_t size, const char *fmt, va_list va) { (void)fmt; (void)va; return emit(buf, size); }
#endif
static int msgs, lastlevel, lastonly; static const char *want; static size_t wantlen; static size_t lastlen;
static void sink(rs_loglevel level, const char *msg) { size_t n = strlen(msg); vp_assert(n < 5000, "log message not terminated"); msgs++; lastlevel = level; lastlen = n;
    if (want && (!lastonly || msgs == lastonly)) { size_t i, k; int found = 0; for (i = 0; i + wantlen <= n && !found; i++) { for (k = 0; k < wantlen && msg[i + k] == want[k]; k++) ; found = k == wantlen; } vp_assert(found, "the message logged does not contain its text"); }
}
void vp_main(void) {
#if PART == 5
    static const int maxs[] = { 16, 32, 16, 32 }; static u8 in[12 + 2 * 36], none[1]; static char hex[66]; int m = (int)vp_range(0, 3, "magic"), k = (int)vp_range(0, 2, "blocks"), sl, b, i; rs_signature_t *sig;
    sl = (int)vp_range(1, maxs[m], "sl"); put4(in, ref_magics[m]); put4(in + 4, 1 + (ND32("bl") & 0xffff)); put4(in + 8, sl);
    for (i = 0; i < k * (4 + sl); i++) in[12 + i] = (u8)(i * 29 + 200); if (k) { in[12 + 4] = ND8("strong"); in[12 + 4 + sl - 1] = ND8("strong"); }
    { rs_job_t *j = rs_loadsig_begin(&sig); io_t io = { in, 12 + k * (4 + sl), 0, none, 0, 0 }; vp_assert(io_run(j, &io, S_WHOLE) == RS_DONE, "signature rejected"); rs_job_free(j); }
    rs_trace_to(sink); rs_trace_set_level(RS_LOG_INFO);
    if (k) { for (i = 0, b = 12 + (k - 1) * (4 + sl) + 4; i < sl; i++) { hex[2 * i] = "0123456789abcdef"[in[b + i] >> 4]; hex[2 * i + 1] = "0123456789abcdef"[in[b + i] & 15]; } wantlen = 2 * sl; lastonly = k + 1; want = hex; }
    rs_sumset_dump(sig); vp_assert(msgs == 1 + k && lastlevel == RS_LOG_INFO, "a dump is one line and one more for each block"); vp_witness(1); if (k == 2 && sl == 32) vp_witness(2); vp_note(lastlen); vp_note(msgs);
    rs_free_sumset(sig);
#elif PART == 4
    static const size_t tl[] = { 0, 1, 80, 900, 974, 975, 998, 999, 1000, 1001, 1039, 1040, 1041, 3000 }, fl[] = { 0, 1, 16, 30, 60, 300, 1100 }; static char text[3001], fn[1101];
    size_t t = tl[vp_range(0, 13, "textlen")], f = fl[vp_range(0, 6, "fnlen")]; int level = (int)vp_range(0, 7, "level"), flags = level | (vp_range(0, 1, "noname") ? RS_LOG_NONAME : 0);
    memset(text, 't', t); memset(fn, 'f', f);
    { size_t k; for (k = 0; k < 2 && k < t && t <= 900; k++) { text[k] = (char)ND8("char"); vp_assume(text[k] != 0); } } rs_trace_to(sink); rs_trace_set_level(RS_LOG_DEBUG);
    if (t <= 900 && f <= 60) { want = text; wantlen = t; }
    if (vp_range(0, 1, "number")) rs_log0(flags, fn, "%s %#x %ld", text, 77, -1L); else rs_log0(flags, fn, "%s", text);
    vp_assert(msgs == 1 && lastlevel == level, "message not delivered once"); vp_witness(1); if (t > 1000 && f > 60) vp_witness(2); vp_note(msgs);
#elif PART == 3
    int level = (int)vp_range(0, 7, "level"), limit = (int)vp_range(0, 7, "limit"), flags = level | (vp_range(0, 1, "noname") ? RS_LOG_NONAME : 0); static const char *const fns[] = { "", "rs_some_function" };
    int have = (int)vp_range(0, 1, "sink");
    rs_trace_to(have ? sink : NULL); rs_trace_set_level(limit);
    rs_log0(flags, fns[vp_range(0, 1, "fn")], "%s", "text");
    vp_assert(msgs == (have && level <= limit), "message delivered or suppressed against the level"); if (msgs) { vp_assert(lastlevel == level, "message delivered with another level"); vp_witness(1); } else vp_witness(2);
    vp_note(msgs); vp_note(lastlen);
#else
    rs_stats_t st; memset(&st, 0, sizeof st); size_t i; static char opname[] = "delta";
    st.op = vp_range(0, 1, "op") ? opname : NULL; st.lit_cmds = (int)ND32("v"); st.lit_bytes = ND64("v"); st.sig_cmds = ND64("v"); st.sig_bytes = ND64("v"); st.copy_cmds = ND64("v"); st.copy_bytes = ND64("v"); st.false_matches = (int)ND32("v"); st.sig_blocks = ND64("v"); st.block_len = ND64("v"); st.in_bytes = 1000; st.start = 5; st.end = 5 + (int)vp_range(0, 1, "sec");
#if PART == 1
    static const size_t sizes[] = { 1, 2, 5, 8, 40, 41, 60, 88, 300 }; size_t size = sizes[vp_range(0, 8, "size")]; char *buf = malloc(size);
    for (i = 0; i < size; i++) buf[i] = 'z';
    vp_assert(rs_format_stats(&st, buf, size) == buf, "wrong return value");
    for (i = 0; i < size && buf[i]; i++) ; vp_assert(i < size, "text not terminated within the buffer"); vp_note(i);
    if (size >= 300 && i > 50) vp_witness(1); if (size < 8) vp_witness(2); free(buf);
#else
    rs_trace_to(sink); rs_trace_set_level(RS_LOG_INFO); rs_log_stats(&st); vp_assert(msgs == 1 && lastlevel == RS_LOG_INFO, "statistics not logged once"); vp_witness(1); vp_note(lastlen);
#endif
#endif
    vp_assert(vp_heap_live() == 0, "memory leaked");
}
