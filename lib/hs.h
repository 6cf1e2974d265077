/* string harness helpers */
#ifndef HS_H
#define HS_H
#include "vh.h"
#include "vita/container/str.h"
#ifndef CAP
#define CAP 6      /* largest pre-state capacity */
#endif
#ifndef ZM
#define ZM 3       /* longest argument string */
#endif
/* an arbitrary well-formed string object: any capacity <= CAP, any length <= capacity, any
   NUL-free text, arbitrary bytes after the terminator */
static vt_str_t *vh_str(size_t minlen, size_t maxcap, char *old) {
    size_t cap = vh_range(0, maxcap), len = vh_range(minlen, maxcap);
    ASSUME(len <= cap);
    vt_str_t *s = malloc(sizeof *s);
    char *p = malloc(cap + 1);
    for (size_t i = 0; i <= maxcap; i++) {
        char c = vh_char();
        if (i < len) ASSUME(c != 0);
        if (i == len) c = 0;
        if (i <= cap) p[i] = c;
        old[i] = c;
    }
    *s = (vt_str_t){ .len = len, .capacity = cap, .elsize = 1, .ptr = p };
    return s;
}
/* the same with the length and the capacity fixed per solver run */
static vt_str_t *vh_str_lc(size_t len, size_t cap, char *old) {
    vt_str_t *s = malloc(sizeof *s);
    char *p = malloc(cap + 1);
    for (size_t i = 0; i <= cap; i++) {
        char c = vh_char();
        if (i < len) ASSUME(c != 0);
        if (i == len) c = 0;
        p[i] = c; old[i] = c;
    }
    *s = (vt_str_t){ .len = len, .capacity = cap, .elsize = 1, .ptr = p };
    return s;
}
/* n arbitrary characters, NUL terminated when term; the last one is the last of buf[size] */
static char *vh_zn(char *buf, size_t size, size_t n, int term) {
    char *z = buf + size - n - (term ? 1 : 0);
    for (size_t i = 0; i < n; i++) { char c = vh_char(); ASSUME(c != 0); z[i] = c; }
    if (term) { z[n] = 0; vh_hint(z, n); }
    return z;
}
#define STR size_t L = vh_split(0), C = vh_split(1); char old[CAP + 1]; vt_str_t *s = vh_str_lc(L, C, old); size_t len = L, cap = C; char *p = s->ptr; (void)len; (void)cap; (void)p
#define ZSTR(k) size_t zl = vh_split(k); char zb[ZM + 1]; char *z = vh_zn(zb, ZM + 1, zl, 1)
#define ZBYTES(k) size_t zl = vh_split(k); char zb[ZM]; char *z = vh_zn(zb, ZM, zl, 0)
/* an arbitrary C string of length min..max that ends exactly at the end of buf[max+1] */
static char *vh_z(char *buf, size_t min, size_t max, size_t *zl) {
    for (size_t i = 0; i < max; i++) { char c = vh_char(); ASSUME(c != 0); buf[i] = c; }
    buf[max] = 0;
    *zl = vh_range(min, max);
    return buf + (max - *zl);
}
/* min..max bytes without terminator, ending exactly at the end of buf[max] */
static char *vh_bytes(char *buf, size_t min, size_t max, size_t *zl) {
    for (size_t i = 0; i < max; i++) { char c = vh_char(); ASSUME(c != 0); buf[i] = c; }
    *zl = vh_range(min, max);
    return buf + (max - *zl);
}
/* s is well formed, owns its buffer and holds exactly exp[0..n) ; max bounds n */
static void vh_str_is(const vt_str_t *s, const char *exp, size_t n, size_t max) {
    CHECK(s->len == n, "length");
    CHECK(vt_str_len(s) == n, "reported length");
    CHECK(s->capacity >= n, "length exceeds capacity");
    CHECK(!s->is_view && s->elsize == 1, "kind of the string object");
    CHECK(vh_block_size(s->ptr) >= s->capacity + 1, "capacity exceeds the allocated buffer");
    const char *q = vt_str_z(s); n = s->len;
    for (size_t i = 0; i < max; i++) if (i < n) CHECK(q[i] == exp[i], "text");
    CHECK(q[n] == 0, "terminator");
}
#endif
