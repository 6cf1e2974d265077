/* C02: capacity management never loses text and what it promises is really there */
#include "hs.h"
//@ H_reserve  unwind="C+N+3" mode=X D="CAP=16" split="L=0:4 C=L:L+2 N=1:3" | split="L=0:8 C=L:L+4 N=1:5"
//@ H_shrink   unwind="C+3" mode=X D="CAP=16" split="L=0:7 C=L:L+3" | split="L=0:12 C=L:L+4"
//@ H_resize   unwind="max(C,N)+3" mode=X D="CAP=16" split="L=0:4 C=L:L+2 N=1:6" | split="L=0:8 C=L:L+3 N=1:13"
//@ H_validate unwind="C+3" mode=X D="CAP=16" split="L=0:6 C=L:6" | split="L=0:10 C=L:10"
//@ H_space    unwind="C+3" mode=X D="CAP=16 ZM=8" split="L=0:4 C=L+1:L+3 Z=1:C-L" | split="L=0:8 C=L+1:L+4 Z=1:C-L"
//@ H_hist     unwind="C+7" mode=X D="CAP=16" split="L=0:2 C=L:L+1 A=0:6 B=0:6 D=0:0" | split="L=0:2 C=L:L+1 A=0:6 B=0:6 D=0:6"

void H_reserve(void) {
    STR;
    size_t n = vh_split(2);
    vt_str_reserve(s, n);
    vh_str_is(s, old, len, CAP);
    CHECK(vt_str_capacity(s) >= cap + n, "capacity grows by at least n");
    CHECK(vt_str_has_space(s) == vt_str_capacity(s) - len, "space");
    CHECK(vh_live() == 2, "blocks");
    REACH("end");
}
void H_shrink(void) {
    STR;
    vt_str_shrink(s);
    vh_str_is(s, old, len, CAP);
    CHECK(vt_str_capacity(s) == len, "capacity equals length");
    CHECK(vt_str_has_space(s) == 0, "no space left");
    CHECK(vh_live() == 2, "blocks");
    if (len == cap) REACH("already tight"); else REACH("shrunk");
}
void H_resize(void) {
    STR;
    size_t n = vh_split(2);
    vt_str_resize(s, n);
    vh_str_is(s, old, n < len ? n : len, CAP);
    CHECK(vt_str_capacity(s) == n, "capacity is n");
    CHECK(vh_live() == 2, "blocks");
    if (n < len) REACH("cut"); else REACH("kept");
}
void H_validate(void) {
    /* the user wrote through the raw pointer: arbitrary bytes, any recorded length */
    size_t len = vh_split(0), cap = vh_split(1);
    vt_str_t *s = malloc(sizeof *s); char *p = malloc(cap + 1); char old[CAP + 1];
    for (size_t i = 0; i <= CAP; i++) { char c = vh_char(); if (i <= cap) p[i] = c; old[i] = c; }
    *s = (vt_str_t){ .len = len, .capacity = cap, .elsize = 1, .ptr = p };
    size_t exp = cap; for (size_t i = CAP; i-- > 0;) if (i < cap && !old[i]) exp = i;
    CHECK(vt_str_validate_len(s) == exp, "returned length");
    vh_str_is(s, old, exp, CAP);
    CHECK(s->capacity == cap, "capacity");
    REACH("end");
}
/* what has_space reports can be appended without moving the buffer */
void H_space(void) {
    STR; const char *q = vt_str_z(s);
    ZBYTES(2);
    CHECK(vt_str_has_space(s) == cap - len, "space");
    size_t at = vh_range(0, CAP); ASSUME(at <= len);
    if (vh_bool()) vt_str_append_n(s, z, zl); else vt_str_insert_n(s, z, at, zl);
    CHECK(vt_str_z(s) == q, "the buffer did not move");
    CHECK(vt_str_capacity(s) == cap, "capacity unchanged");
    CHECK(vt_str_len(s) == len + zl && vt_str_has_space(s) == cap - len - zl, "length and space");
    REACH("end");
}
/* histories of capacity and edit operations against a reference text; the kind of each
   operation is fixed per run, texts, sizes and positions are symbolic or derived */
#define RM (CAP + 8)
void H_hist(void) {
    STR; char ref[RM + 1]; for (size_t i = 0; i <= RM; i++) ref[i] = i < L ? old[i] : 0;
    for (int k = 0; k < 3; k++) {
        size_t op = vh_split(2 + k), n = 1 + k; char c = vh_char(); ASSUME(c != 0);
        char z[2] = { c, 0 };
        if (k == 2 && op == 0) break; /* two operations only */
        if (op == 0) { vt_str_append_n(s, z, 1); ref[len++] = c; }
        else if (op == 1) { vt_str_clear(s); len = 0; }
        else if (op == 2) { vt_str_shrink(s); }
        else if (op == 3) { vt_str_reserve(s, n); }
        else if (op == 4) { vt_str_resize(s, n); if (n < len) len = n; }
        else if (op == 5) { if (len > 0) { vt_str_insert_n(s, z, 0, 1); for (size_t i = RM; i > 0; i--) ref[i] = ref[i - 1]; ref[0] = c; len++; } }
        else { if (len > 0) { vt_str_remove(s, 0, n); size_t m = n < len ? n : len; for (size_t i = 0; i + m <= RM; i++) ref[i] = ref[i + m]; len -= m; } }
    }
    vh_str_is(s, ref, len, RM);
    vt_str_destroy(s);
    CHECK(vh_live() == 0, "everything freed");
    REACH("end");
}
