/* formatting (symbolic build). Two modes: with vh_fmt_text set, every formatted print yields that
   text whatever its format (natively "%s" of that text is used); otherwise the format is
   interpreted. Decimal digits are introduced relationally (unknown digits whose weighted sum is the
   value), which is exact because the representation is unique. */
#include "vh.h"
#include <stdio.h>
#include <stdarg.h>
const char *vh_fmt_text; size_t vh_fmt_len; int vh_fmt_fail; size_t vh_fmt_digits;
uint8_t nondet_u8(void);
static char vh_dg[20];  /* most significant first */
static const uint64_t vh_p10[20] = {1u, 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u, 10000000000u, 100000000000u, 1000000000000u,
    10000000000000u, 100000000000000u, 1000000000000000u, 10000000000000000u, 100000000000000000u, 1000000000000000000u, 10000000000000000000u};
size_t vh_dec(uint64_t v, int max, int count) {
    size_t k = vh_fmt_digits;
    if (k == 0) { k = 1; for (int i = 1; i < max; i++) k += v >= vh_p10[i]; }
    else __CPROVER_assert((k == 1 || v >= vh_p10[k - 1]) && (k == 20 || v < vh_p10[k < 20 ? k : 19]), "CHECK: number of digits");
    if (count) return k;  /* only the length is wanted */
    uint64_t acc = 0; int ok = 1;
    for (int i = 0; i < max; i++) if ((size_t)i < k) {
        char c = (char)nondet_u8(); ok = ok & (c >= '0' && c <= '9') & (acc < 1844674407370955161u || (acc == 1844674407370955161u && c < '6'));
        vh_dg[i] = c; acc = acc * 10 + (uint64_t)(c - '0');  /* written as in the readers, so that the solver sees the same sum */
    }
    __CPROVER_assume(ok && acc == v && (k == 1 || vh_dg[0] != '0'));
    return k;
}
/* the front end does not promote small variadic arguments: read as many bytes as there are */
#define VH_INT(lng_t, int_t) (__CPROVER_OBJECT_SIZE(*(void **)a) == 1 ? (lng_t)va_arg(a, int_t##8) : __CPROVER_OBJECT_SIZE(*(void **)a) == 2 ? (lng_t)va_arg(a, int_t##16) : lng ? (lng_t)va_arg(a, int_t##64) : (lng_t)va_arg(a, int_t##32))
typedef int8_t vh_i8; typedef int16_t vh_i16; typedef int32_t vh_i32; typedef int64_t vh_i64; typedef uint8_t vh_n8; typedef uint16_t vh_n16; typedef uint32_t vh_n32; typedef uint64_t vh_n64;
#define VH_PUT(c) do { if (!bounded || pos + 1 < n) b[pos] = (c); pos++; } while (0)
static int vh_fmt(char *b, size_t n, int bounded, const char *f, va_list a) {
    if (vh_fmt_fail) return -1;
    size_t pos = 0;
    if (vh_fmt_text) {
        size_t k = vh_fmt_len;
        if (bounded && n == 0) return (int)k;
        size_t m = bounded ? (k < n - 1 ? k : n - 1) : k;
        for (size_t i = 0; i < m; i++) b[i] = vh_fmt_text[i];
        b[m] = 0;
        return (int)k;
    }
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { VH_PUT(f[i]); continue; }
        i++;
        if (f[i] == '%') { VH_PUT('%'); continue; }
        size_t w = 0, prec = 0; int zero = 0, lng = 0, half = 0, max = 10;
        if (f[i] == '0') { zero = 1; i++; }
        for (; f[i] >= '0' && f[i] <= '9'; i++) w = w * 10 + (f[i] - '0');
        if (f[i] == '.') { i++; for (; f[i] >= '0' && f[i] <= '9'; i++) prec = prec * 10 + (f[i] - '0'); }
        for (; f[i] == 'l' || f[i] == 'h' || f[i] == 'z'; i++) { if (f[i] == 'h') half++; else lng++; }
        if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u') {
            uint64_t v; int neg = 0;
            if (f[i] == 'u') { v = VH_INT(uint64_t, vh_n); if (half == 1) v = (uint16_t)v; if (half == 2) v = (uint8_t)v; }
            else { long x = VH_INT(long, vh_i); if (half == 1) x = (int16_t)x; if (half == 2) x = (int8_t)x; neg = x < 0; v = neg ? -(uint64_t)x : (uint64_t)x; }
            if (lng) max = 20; if (half == 1) max = 5; if (half == 2) max = 3;
            size_t k = vh_dec(v, max, bounded && n == 0), z = prec > k ? prec - k : 0;
            if (zero && w > k + neg) z = w - k - neg;
            if (neg) VH_PUT('-');
            for (size_t j = 0; j < 20; j++) if (j < z) VH_PUT('0');
            for (int j = 0; j < max; j++) if ((size_t)j < k) VH_PUT(vh_dg[j]);
        } else if (f[i] == 's') {
            const char *s = va_arg(a, const char *); size_t sl = 0; if (w) { while (s[sl]) sl++; for (size_t j = sl; j < w; j++) VH_PUT(' '); }
            for (size_t j = 0; s[j]; j++) VH_PUT(s[j]);
        } else if (f[i] == 'c') { VH_PUT((char)va_arg(a, int)); }
        else __CPROVER_assert(0, "CHECK: conversion supported by the formatting model");
    }
    if (!bounded) b[pos] = 0; else if (n) b[pos < n ? pos : n - 1] = 0;
    return (int)pos;
}
int vsnprintf(char *b, size_t n, const char *f, va_list a) { return vh_fmt(b, n, 1, f, a); }
int snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vh_fmt(b, n, 1, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list a) { return vh_fmt(b, 0, 0, f, a); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vh_fmt(b, 0, 0, f, a); va_end(a); return r; }
