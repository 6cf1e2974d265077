/* clock and calendar. Symbolic build: proleptic Gregorian calendar in UTC, as glibc's with TZ=UTC
   (the replays run with TZ=UTC against the real functions, only time() is replaced). */
#include "vh.h"
#include "vh_time.h"
#include <time.h>
#include <stdio.h>
#include <stdarg.h>
int64_t vh_now;
#ifdef VH_NATIVE
time_t __wrap_time(time_t *t) { if (t) *t = vh_now; return vh_now; }
#else
uint32_t nondet_u32(void);
time_t time(time_t *t) { if (t) *t = vh_now; return vh_now; }
/* day number -> date, relationally: the representation is unique */
static void vh_civil(int64_t N, struct tm *r) {
    int32_t y = (int32_t)nondet_u32(), m = (int32_t)nondet_u32(), d = (int32_t)nondet_u32();
    __CPROVER_assume(y > -9000 && y < 60000 && m >= 1 && m <= 12 && d >= 1 && d <= vh_dim(y, m));
    __CPROVER_assume(vh_days(y, m, d) == N);
    r->tm_year = y - 1900; r->tm_mon = m - 1; r->tm_mday = d;
}
static void vh_rest(struct tm *r) {
    int32_t y = r->tm_year + 1900, m = r->tm_mon + 1;
    r->tm_wday = vh_wday(y, m, r->tm_mday); r->tm_yday = vh_yday(y, m, r->tm_mday); r->tm_isdst = 0;
}
/* a call with the arguments of an earlier call gets its result: the harness makes the call it expects first */
static struct tm vh_tm; static struct { struct tm k, v; int64_t t; int n; } vh_mk[3], vh_lt[3];
struct tm *localtime_r(const time_t *t, struct tm *r) {
    for (int i = 0; i < 3; i++) if (vh_lt[i].n && vh_lt[i].t == *t) { *r = vh_lt[i].v; return r; }
    if (*t == 0) { *r = (struct tm){.tm_mday = 1, .tm_year = 70, .tm_wday = 4}; return r; }
    int32_t N = (int32_t)nondet_u32(); int64_t s = *t - (int64_t)N * 86400; __CPROVER_assume(N > -4000000 && N < 12000000 && s >= 0 && s < 86400);
    int32_t q = (int32_t)s; r->tm_hour = q / 3600; r->tm_min = q % 3600 / 60; r->tm_sec = q % 60;
    vh_civil(N, r); vh_rest(r);
    for (int i = 0; i < 3; i++) if (!vh_lt[i].n) { vh_lt[i].n = 1; vh_lt[i].t = *t; vh_lt[i].v = *r; break; }
    return r;
}
struct tm *localtime(const time_t *t) { return localtime_r(t, &vh_tm); }
struct tm *gmtime(const time_t *t) { return localtime_r(t, &vh_tm); }
static int32_t vh_fdiv(int32_t a, int32_t b) { int32_t q = a / b; return a % b < 0 ? q - 1 : q; }
time_t mktime(struct tm *r) {
    struct tm k = *r;
    for (int i = 0; i < 3; i++) if (vh_mk[i].n && vh_mk[i].k.tm_year == k.tm_year && vh_mk[i].k.tm_mon == k.tm_mon && vh_mk[i].k.tm_mday == k.tm_mday && vh_mk[i].k.tm_hour == k.tm_hour
        && vh_mk[i].k.tm_min == k.tm_min && vh_mk[i].k.tm_sec == k.tm_sec) { *r = vh_mk[i].v; return (time_t)vh_mk[i].t; }
    int32_t y = r->tm_year + 1900, m = r->tm_mon; y += vh_fdiv(m, 12); m = m - 12 * vh_fdiv(m, 12) + 1;
    int32_t s = r->tm_sec, mi = r->tm_min, h = r->tm_hour, c;
    c = vh_fdiv(s, 60); s -= 60 * c; mi += c; c = vh_fdiv(mi, 60); mi -= 60 * c; h += c; c = vh_fdiv(h, 24); h -= 24 * c;
    int32_t d = r->tm_mday + c; int64_t N = vh_days(y, m, 1) + (d - 1);
    if (d >= 1 && d <= vh_dim(y, m)) { r->tm_year = y - 1900; r->tm_mon = m - 1; r->tm_mday = d; }
    else vh_civil(N, r);
    r->tm_hour = h; r->tm_min = mi; r->tm_sec = s; vh_rest(r); int64_t t = N * 86400 + h * 3600 + mi * 60 + s;
    for (int i = 0; i < 3; i++) if (!vh_mk[i].n) { vh_mk[i].n = 1; vh_mk[i].k = k; vh_mk[i].v = *r; vh_mk[i].t = t; break; }
    for (int i = 0; i < 3; i++) if (!vh_lt[i].n) { vh_lt[i].n = 1; vh_lt[i].t = t; vh_lt[i].v = *r; break; }
    return (time_t)t;
}
static size_t vh_two(char *b, size_t n, size_t p, int32_t v) { if (p + 2 < n) { b[p] = '0' + v / 10; b[p + 1] = '0' + v % 10; } return p + 2; }
size_t strftime(char *b, size_t n, const char *f, const struct tm *t) {
    size_t p = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { if (p + 1 < n) b[p] = f[i]; p++; continue; }
        i++; int32_t y = t->tm_year + 1900;
        switch (f[i]) {
        case 'Y': __CPROVER_assert(y >= 1000 && y <= 9999, "CHECK: year of four digits"); p = vh_two(b, n, p, y / 100); p = vh_two(b, n, p, y % 100); break;
        case 'm': p = vh_two(b, n, p, t->tm_mon + 1); break; case 'd': p = vh_two(b, n, p, t->tm_mday); break; case 'H': p = vh_two(b, n, p, t->tm_hour); break;
        case 'M': p = vh_two(b, n, p, t->tm_min); break; case 'S': p = vh_two(b, n, p, t->tm_sec); break;
        default: __CPROVER_assert(0, "CHECK: conversion supported by the strftime model");
        }
    }
    if (p >= n) return 0;
    b[p] = 0; return p;
}
char *asctime_r(const struct tm *t, char *b) {
    const char *w = t->tm_wday < 0 || t->tm_wday > 6 ? "???" : vh_wn[t->tm_wday], *m = t->tm_mon < 0 || t->tm_mon > 11 ? "???" : vh_mn[t->tm_mon]; int32_t y = t->tm_year + 1900;
    __CPROVER_assert(y >= 1000 && y <= 9999 && t->tm_mday >= 0 && t->tm_mday < 100, "CHECK: date the asctime model covers");
    for (int i = 0; i < 3; i++) { b[i] = w[i]; b[4 + i] = m[i]; }
    b[3] = b[7] = b[10] = b[19] = ' '; b[13] = b[16] = ':'; vh_two(b, 26, 8, t->tm_mday); if (b[8] == '0') b[8] = ' ';
    vh_two(b, 26, 11, t->tm_hour); vh_two(b, 26, 14, t->tm_min); vh_two(b, 26, 17, t->tm_sec); vh_two(b, 26, 20, y / 100); vh_two(b, 26, 22, y % 100);
    b[24] = '\n'; b[25] = 0; return b;
}
int sscanf(const char *z, const char *f, ...) {
    va_list a; va_start(a, f); int n = 0; size_t p = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] == ' ') { while (z[p] == ' ' || (z[p] >= 9 && z[p] <= 13)) p++; continue; }
        if (f[i] != '%') { if (z[p] != f[i]) break; p++; continue; }
        i++; size_t w = 0, k = 0; for (; f[i] >= '0' && f[i] <= '9'; i++) w = w * 10 + (f[i] - '0');
        __CPROVER_assert(f[i] == 'd' && w > 0, "CHECK: conversion supported by the sscanf model");
        while (z[p] == ' ' || (z[p] >= 9 && z[p] <= 13)) p++;
        int neg = 0; int32_t v = 0; size_t dg = 0;
        if (z[p] == '-' || z[p] == '+') { neg = z[p] == '-'; p++; k++; }
        for (; k < w && z[p] >= '0' && z[p] <= '9'; k++) { v = v * 10 + (z[p] - '0'); p++; dg++; }
        if (dg == 0) break;
        *va_arg(a, int *) = neg ? -v : v; n++;
    }
    va_end(a); return n;
}
#endif
