/* C library functions for the symbolic runs (weak: a harness may replace them). */
#include <stddef.h>
#include <stdlib.h>
#define W __attribute__((weak))
#define U(p) ((const unsigned char *)(p))
W int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
W int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
/* without a branch per character: one fork, not one per position */
W char *strchr(const char *s, int c) {
    unsigned long r = 0, found = 0, hit;
    for (;; s++) { hit = (unsigned long)(*s == (char)c) & ~found & 1; r |= -hit & (unsigned long)s; found |= hit; if (!*s) return (char *)r; }
}
W char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
W char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
W void *memchr(const void *p, int c, size_t n) { for (size_t i = 0; i < n; i++) if (U(p)[i] == (unsigned char)c) return (void *)(U(p) + i); return NULL; }
W size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
W size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
W int abs(int x) { return x < 0 ? -x : x; }
