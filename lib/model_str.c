/* libc string/ctype functions for the symbolic build (C locale). */
#include "vh.h"
#ifndef MAXB
#define MAXB 16
#endif
#ifndef MAXCPY
#define MAXCPY MAXB
#endif
#define VALID(p) do { int nul = __CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT((char *)0); __CPROVER_assert(!nul, "NULL pointer given to a string function"); __CPROVER_assume(!nul); } while (0)
#ifdef VH_PATHS  /* stop exploring a path that leaves an object (the assertion is reported first) */
#define FITS(p, n) do { if (n) VALID(p); __CPROVER_assert((n) == 0 || __CPROVER_POINTER_OFFSET(p) + (n) <= __CPROVER_OBJECT_SIZE(p) && (n) <= __CPROVER_OBJECT_SIZE(p), "access outside the object"); \
    __CPROVER_assume((n) == 0 || __CPROVER_POINTER_OFFSET(p) + (n) <= __CPROVER_OBJECT_SIZE(p) && (n) <= __CPROVER_OBJECT_SIZE(p)); } while (0)
#else
#define FITS(p, n) do { } while (0)
#endif
void *memmove(void *d, const void *s, size_t n) {
    char *a = d; const char *b = s; char t[MAXCPY];
    __CPROVER_assert(n <= MAXCPY, "BOUND: memmove size");
    __CPROVER_assume(n <= MAXCPY);
    FITS(d, n); FITS(s, n);
    for (size_t i = 0; i < n; i++) t[i] = b[i];
    for (size_t i = 0; i < n; i++) a[i] = t[i];
    return d;
}
void *memcpy(void *d, const void *s, size_t n) {
    char *a = d; const char *b = s;
    FITS(d, n); FITS(s, n);
    if (n > 0 && a != b && __CPROVER_same_object(a, b)) {
        size_t x = __CPROVER_POINTER_OFFSET(a), y = __CPROVER_POINTER_OFFSET(b);
        __CPROVER_assert(!(x < y + n && y < x + n), "UB: memcpy of overlapping ranges");
    }
    for (size_t i = 0; i < n; i++) a[i] = b[i];
    return d;
}
void *memset(void *d, int c, size_t n) {
    char *a = d;
    FITS(d, n);
    for (size_t i = 0; i < n; i++) a[i] = (char)c;
    return d;
}
int memcmp(const void *l, const void *r, size_t n) {
    const unsigned char *a = l, *b = r;
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
void *memchr(const void *s, int c, size_t n) {
    const unsigned char *a = s;
    for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)c) return (void *)(a + i);
    return 0;
}
const char *vh_hp[4]; size_t vh_hn[4]; int vh_nh;
/* s points into an announced, unmodified text: its length there (else -1) */
static long vh_known(const char *s) {
    for (int k = 0; k < vh_nh; k++) if (__CPROVER_same_object(s, vh_hp[k])) {
        size_t a = __CPROVER_POINTER_OFFSET(s), b = __CPROVER_POINTER_OFFSET(vh_hp[k]);
        if (a < b || a > b + vh_hn[k]) continue;
        size_t n = vh_hn[k] - (a - b);
        for (size_t i = 0; i < n; i++) __CPROVER_assert(s[i] != 0, "MODEL: an input string was modified");
        __CPROVER_assert(s[n] == 0, "MODEL: an input string was modified");
        return n;
    }
    return -1;
}
size_t strlen(const char *s) {
    long k = vh_known(s);
    if (k >= 0) return k;
#ifdef VH_PATHS
    /* path-wise exploration: decide where the NUL is with one fork per position */
    VALID(s);
    size_t room = __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s), pos = room;
    __CPROVER_assert(__CPROVER_r_ok(s, 1), "strlen of an invalid pointer");
    __CPROVER_assume(__CPROVER_POINTER_OFFSET(s) < __CPROVER_OBJECT_SIZE(s));
    for (size_t i = 0; i < room; i++) pos = (pos == room) & (s[i] == 0) ? i : pos;
    __CPROVER_assert(pos < room, "string without terminator");
    for (size_t i = 0; i < room; i++) if (pos == i) return i;
    __CPROVER_assume(0);
#endif
    size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (a[i] == 0) return 0;
    }
    return 0;
}
int strcmp(const char *a, const char *b) {
    size_t i = 0;
    while (a[i] == b[i]) { if (a[i] == 0) return 0; i++; }
    return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
}
char *strchr(const char *s, int c) {
    size_t i = 0;
    while (s[i] != (char)c) { if (s[i] == 0) return 0; i++; }
    return (char *)s + i;
}
char *strrchr(const char *s, int c) {
    char *r = 0; size_t i = 0;
    for (;;) { if (s[i] == (char)c) r = (char *)s + i; if (s[i] == 0) return r; i++; }
}
char *strstr(const char *h, const char *n) {
    size_t m = strlen(n);
    if (m == 0) return (char *)h;
#ifdef VH_PATHS
    VALID(h);
    size_t room = __CPROVER_OBJECT_SIZE(h) - __CPROVER_POINTER_OFFSET(h); int alive = 1;
    __CPROVER_assert(__CPROVER_r_ok(h, 1), "strstr in an invalid pointer");
    __CPROVER_assume(__CPROVER_POINTER_OFFSET(h) < __CPROVER_OBJECT_SIZE(h));
    /* searches of an announced text are remembered along the path (and the remembered answer re-asserted) */
    static const char *mh[16], *mn[16]; static size_t mr[16]; static int nm;
    long known = vh_known(h);
    if (known >= 0) room = known;
    size_t ans = room + 1;
    if (known >= 0) for (int k = 0; k < nm; k++) if (mh[k] == h && mn[k] == n) ans = mr[k];
    int memo = ans <= room;
    for (size_t i = 0; i < room; i++) {
        int eq = alive;
        for (size_t j = 0; j < m; j++) eq = eq & (i + j < room) & (h[i + j < room ? i + j : i] != 0) & (h[i + j < room ? i + j : i] == n[j]);
        if (memo) { __CPROVER_assert(eq == (i == ans), "MODEL: an input string was modified"); if (i == ans) return (char *)h + i; }
        else if (i + m <= room && eq) { if (known >= 0 && nm < 16) { mh[nm] = h; mn[nm] = n; mr[nm] = i; nm++; } return (char *)h + i; }
        alive = alive & (h[i] != 0);
    }
    if (known < 0) __CPROVER_assert(!alive, "string without terminator");
    else if (!memo && nm < 16) { mh[nm] = h; mn[nm] = n; mr[nm] = room; nm++; }
    return 0;
#endif
    for (size_t i = 0; h[i]; i++) {
        int eq = 1;
        for (size_t j = 0; j < m; j++) if (h[i + j] != n[j]) { eq = 0; break; }
        if (eq) return (char *)h + i;
    }
    return 0;
}
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *strncpy(char *d, const char *s, size_t n) {
    /* padding: only up to byte 64 of the destination (buffers of the code under test are zero beyond it) */
    int end = 0; size_t m = n;
    if (n > 64 && strlen(s) < 64) { __CPROVER_assert(__CPROVER_w_ok(d, n), "MEM: strncpy destination"); m = 64; }
    for (size_t i = 0; i < m; i++) { if (end) d[i] = 0; else { d[i] = s[i]; if (!s[i]) end = 1; } }
    return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) if (!strchr(a, s[i])) break; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) if (strchr(a, s[i])) break; return i; }
char *strpbrk(const char *s, const char *a) { size_t i = strcspn(s, a); return s[i] ? (char *)s + i : 0; }

#define CT(c) __CPROVER_assert((c) >= -128 && (c) <= 255, "UB: ctype argument outside the table")
int isdigit(int c) { CT(c); return c >= '0' && c <= '9'; }
int isupper(int c) { CT(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) { CT(c); return c >= 'a' && c <= 'z'; }
int isalpha(int c) { CT(c); return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { CT(c); return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { CT(c); return c == ' ' || c == '\t'; }
int iscntrl(int c) { CT(c); return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { CT(c); return c >= 32 && c < 127; }
int isgraph(int c) { CT(c); return c > 32 && c < 127; }
int ispunct(int c) { CT(c); return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { CT(c); return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { CT(c); return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { CT(c); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
