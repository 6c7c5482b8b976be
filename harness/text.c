/* C18: text encodings.  PART 1 hex, 2 base64 encode and decode of N bytes,
 * 3 decoding arbitrary text of up to N characters. */
#include "common.h"
#ifndef N
#define N 6
#endif
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(u8 c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
void vp_main(void) {
    size_t i, n = vp_range(0, N, "n"), k;
#if PART == 1
    u8 *d = malloc(n), *t = malloc(2 * n + 1); for (i = 0; i < n; i++) d[i] = ND8("d");
    rs_hexify((char *)t, d, (int)n);
    for (i = 0; i < n; i++) { u8 h = d[i] >> 4, l = d[i] & 15; vp_assert(t[2 * i] == (h < 10 ? '0' + h : 'a' + h - 10) && t[2 * i + 1] == (l < 10 ? '0' + l : 'a' + l - 10), "wrong hex digit"); }
    vp_assert(t[2 * n] == 0, "hex text not terminated"); if (n == N) vp_witness(1); (void)k; vp_note(n ? t[0] : 0);
    free(d); free(t);
#elif PART == 2
    k = (8 * n + 5) / 6; u8 *d = malloc(n), *t = malloc(k + 1); for (i = 0; i < n; i++) d[i] = ND8("d");
    rs_base64(d, (int)n, (char *)t);
    for (i = 0; i < k; i++) { unsigned v = 0, b; for (b = 0; b < 6; b++) { size_t p = 6 * i + b; v = v << 1 | (p / 8 < n ? d[p / 8] >> (7 - p % 8) & 1 : 0); } vp_assert(t[i] == (u8)b64[v], "wrong base64 character"); }
    vp_assert(t[k] == 0, "base64 text not terminated");
    size_t g = rs_unbase64((char *)t);
    vp_assert(g == n, "decoding does not give back the number of bytes encoded");
    for (i = 0; i < n; i++) vp_assert(t[i] == d[i], "decoding does not give back the bytes encoded");
    if (n == N) vp_witness(1); vp_note(g); free(d); free(t);
#else
    u8 *t = malloc(n + 1), *o = malloc(n + 1); for (i = 0; i < n; i++) o[i] = t[i] = ND8("t"); t[n] = 0;
    int v[N + 1];
#if PART == 4 /* all in the alphabet */
    for (i = 0; i < n; i++) { v[i] = ND8("v") & 63; o[i] = t[i] = b64[v[i]]; }
    size_t g = rs_unbase64((char *)t); k = n;
#else
    size_t g = rs_unbase64((char *)t);
    for (k = 0; k < n && val(o[k]) >= 0; k++) v[k] = val(o[k]);
#endif
    vp_assume(k % 4 != 1); /* not the length of any encoding */
    vp_assert(g == k * 6 / 8, "wrong number of bytes decoded");
    for (i = 0; i < g; i++) { size_t c = i * 8 / 6, s = i * 8 % 6; unsigned w = (v[c] << 6 | v[c + 1]) >> (4 - s) & 0xff; vp_assert(t[i] == w, "wrong byte decoded"); }
    if (k == N) vp_witness(1); if (k < n) vp_witness(2); vp_note(g); free(t); free(o);
#endif
    vp_assert(vp_heap_live() == 0, "memory leaked");
}
