/* C01: every editing call leaves exactly the text its contract describes */
#include "hs.h"
//@ H_create    unwind="Z+3" mode=X D="ZM=12" split="Z=1:8" | split="Z=1:12" D="ZM=16"
//@ H_create_len unwind="Z+3" mode=X D="ZM=12" split="Z=1:8" | split="Z=1:12" D="ZM=16"
//@ H_create_static unwind="Z+3" mode=X D="ZM=12" split="Z=0:8" | split="Z=0:12" D="ZM=16"
//@ H_dup       unwind="C+3" mode=X D="CAP=16" split="L=1:5 C=L:L+2" | split="L=1:12 C=L:L+4"
//@ H_take      unwind="Z+3" mode=X D="ZM=12" split="Z=0:8" | split="Z=0:12" D="ZM=16"
//@ H_set       unwind="C+3" mode=X D="CAP=16 ZM=12" split="L=1:4 C=L:L+1 Z=1:L" | split="L=1:8 C=L:L+2 Z=1:L"
//@ H_set_n     unwind="C+3" mode=X D="CAP=16 ZM=12" split="L=1:4 C=L:L+1 Z=1:L" | split="L=1:8 C=L:L+2 Z=1:L"
//@ H_set_at    unwind="C+3" mode=X D="CAP=16 ZM=12" split="L=1:4 C=L:L+1 Z=1:L" | split="L=1:8 C=L:L+2 Z=1:L"
//@ H_set_c     unwind="C+3" mode=X D="CAP=16" split="L=1:6 C=L:L+1" | split="L=1:12 C=L:L+1"
//@ H_append    unwind="C+Z+3" mode=X D="CAP=16 ZM=8" split="L=0:3 C=L:L+2 Z=1:3" | split="L=0:8 C=L:L+5 Z=1:5"
//@ H_append_n  unwind="C+Z+3" mode=X D="CAP=16 ZM=8" split="L=0:3 C=L:L+2 Z=1:3" | split="L=0:8 C=L:L+5 Z=1:5"
//@ H_insert    unwind="C+Z+3" mode=X D="CAP=16 ZM=8" split="L=1:3 C=L:L+2 Z=0:3" | split="L=1:8 C=L:L+5 Z=0:5"
//@ H_insert_n  unwind="C+Z+3" mode=X D="CAP=16 ZM=8" split="L=0:3 C=L:L+2 Z=1:3" | split="L=0:8 C=L:L+5 Z=1:5"
//@ H_remove    unwind="C+3" mode=X D="CAP=16" split="L=1:6 C=L:L+1" | split="L=1:12 C=L:L+1"
//@ H_clear     unwind="C+3" mode=X D="CAP=16" split="L=0:6 C=L:L+2" | split="L=0:12 C=L:L+4"

void H_create(void) {
    ZSTR(0);
    vt_str_t *s = vt_str_create(z, NULL);
    vh_str_is(s, z, zl, ZM);
    CHECK(vt_str_z(s) != z, "the string does not alias its argument");
    CHECK(vt_str_is_empty(s) == false, "is_empty");
    CHECK(vh_live() == 2, "blocks owned by a string");
    vt_str_destroy(s);
    CHECK(vh_live() == 0, "everything freed");
    REACH("end");
}
void H_create_len(void) {
    size_t n = vh_split(0); bool c = vh_bool();
    vt_str_t *s = c ? vt_str_create_capacity(n, NULL) : vt_str_create_len(n, NULL);
    const char *q = vt_str_z(s);
    CHECK(vt_str_len(s) == (c ? 0 : n), "length");
    CHECK(vt_str_capacity(s) >= n, "capacity");
    CHECK(vh_block_size(q) >= vt_str_capacity(s) + 1, "buffer");
    CHECK(q[vt_str_len(s)] == 0, "terminator");
    CHECK(q[vt_str_capacity(s)] == 0, "last byte");
    CHECK(vt_str_is_empty(s) == c, "is_empty");
    CHECK(!s->is_view && s->alloctr == NULL && s->elsize == 1 && s->slider_idx == 0, "kind");
    vt_str_destroy(s);
    CHECK(vh_live() == 0, "everything freed");
    if (c) REACH("capacity"); else REACH("len");
}
void H_create_static(void) {
    ZSTR(0);
    vt_str_t s = vt_str_create_static(z);
    CHECK(vt_str_z(&s) == z && vt_str_len(&s) == zl && s.is_view, "view of the argument");
    CHECK(s.elsize == 1 && s.slider_idx == 0, "fields");
    CHECK(vh_live() == 0, "no allocation");
    vt_str_destroy(&s);
    CHECK(z[zl] == 0, "argument untouched");
    REACH("end");
}
void H_dup(void) {
    STR;
    vh_hint(p, len);
    vt_str_t *d = vt_str_dup(s);
    vh_str_is(d, old, len, CAP);
    CHECK(d != s && d->ptr != s->ptr, "independent copy");
    vh_str_is(s, old, len, CAP);
    CHECK(s->ptr == p && s->capacity == cap, "source untouched");
    vt_str_destroy(s);
    vh_str_is(d, old, len, CAP);
    vt_str_destroy(d);
    CHECK(vh_live() == 0, "everything freed");
    REACH("end");
}
void H_take(void) {
    size_t zl = vh_split(0); char *p = malloc(zl + 1); char old[ZM + 1];
    for (size_t i = 0; i < ZM; i++) if (i < zl) { char c = vh_char(); ASSUME(c != 0); p[i] = c; old[i] = c; }
    p[zl] = 0; vh_hint(p, zl);
    vt_str_t *s = vt_str_take_ownership(p, NULL);
    CHECK(s->ptr == p, "takes the buffer itself");
    vh_str_is(s, old, zl, ZM);
    vt_str_destroy(s);
    CHECK(vh_live() == 0, "everything freed");
    REACH("end");
}
void H_set(void) {
    STR;
    ZSTR(2);
    vt_str_set(s, z);
    vh_str_is(s, z, zl, ZM);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_set_n(void) {
    STR;
    ZBYTES(2);
    vt_str_set_n(s, z, zl);
    vh_str_is(s, z, zl, ZM);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_set_at(void) {
    STR;
    ZSTR(2);
    size_t at = vh_range(0, CAP); ASSUME(at < len && zl <= len - at);
    CHECK(vt_str_set_at(s, z, at) == VT_STATUS_OPERATION_SUCCESS, "status");
    char exp[CAP + 1];
    for (size_t i = 0; i < CAP; i++) exp[i] = i < at ? old[i] : (i - at < zl ? z[i - at] : 0);
    vh_str_is(s, exp, at + zl, CAP);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_set_c(void) {
    STR;
    size_t at = vh_range(0, CAP); ASSUME(at < len); char c = vh_char(); ASSUME(c != 0);
    CHECK(vt_str_set_c(s, c, at) == VT_STATUS_OPERATION_SUCCESS, "status");
    old[at] = c;
    vh_str_is(s, old, len, CAP);
    REACH("end");
}
static void put(char *exp, const char *old, size_t len, size_t at, const char *z, size_t zl) {
    for (size_t i = 0; i < CAP + ZM; i++)
        exp[i] = i < at ? old[i] : i < at + zl ? z[i - at] : i < len + zl ? old[i - zl] : 0;
}
void H_append(void) {
    STR;
    ZSTR(2);
    vt_str_append(s, z);
    char exp[CAP + ZM]; put(exp, old, len, len, z, zl);
    vh_str_is(s, exp, len + zl, CAP + ZM);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_append_n(void) {
    STR;
    ZBYTES(2);
    vt_str_append_n(s, z, zl);
    char exp[CAP + ZM]; put(exp, old, len, len, z, zl);
    vh_str_is(s, exp, len + zl, CAP + ZM);
    if (cap - len >= zl) { CHECK(s->ptr == p, "no reallocation while there is space"); REACH("fits"); } else REACH("grows");
    CHECK(vh_live() == 2, "blocks");
}
void H_insert(void) {
    STR;
    ZSTR(2);
    size_t at = vh_range(0, CAP); ASSUME(at < len);
    vt_str_insert(s, z, at);
    char exp[CAP + ZM]; put(exp, old, len, at, z, zl);
    vh_str_is(s, exp, len + zl, CAP + ZM);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_insert_n(void) {
    STR;
    ZBYTES(2);
    size_t at = vh_range(0, CAP); ASSUME(at <= len);
    vt_str_insert_n(s, z, at, zl);
    char exp[CAP + ZM]; put(exp, old, len, at, z, zl);
    vh_str_is(s, exp, len + zl, CAP + ZM);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_remove(void) {
    STR;
    size_t from = vh_range(0, CAP), n = (size_t)vh_u64(); ASSUME(from < len && n > 0);
    vt_str_remove(s, from, n);
    size_t k = n > len - from ? len - from : n; char exp[CAP + 1];
    for (size_t i = 0; i < CAP; i++) exp[i] = i < from ? old[i] : i + k < len ? old[i + k] : 0;
    vh_str_is(s, exp, len - k, CAP);
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
    if (n > CAP) REACH("past the end");
}
void H_clear(void) {
    STR;
    vt_str_clear(s);
    vh_str_is(s, old, 0, CAP);
    CHECK(s->capacity == cap && vt_str_is_empty(s), "capacity kept, empty");
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
