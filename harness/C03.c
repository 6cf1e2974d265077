/* C03: searching and comparing agree with the text and change nothing */
#include "hs.h"
//@ H_find      unwind="C+3" mode=X D="CAP=16 ZM=8" split="L=0:6 C=L:L+1 Z=0:min(L,3)" | split="L=0:9 C=L:L+1 Z=0:min(L,5)"
//@ H_count     unwind="C+3" mode=X D="CAP=16 ZM=8" split="L=1:5 C=L:L+1 Z=1:min(L,3)" | split="L=1:8 C=L:L+1 Z=1:min(L,4)"
//@ H_index     unwind="C+3" mode=X D="CAP=16" split="L=0:8 C=L:L+1" | split="L=0:12 C=L:L+1"
//@ H_equals    unwind="max(L,Z)+4" mode=X D="CAP=16" split="L=0:5 C=L:L+1 Z=0:5" | split="L=0:8 C=L:L+1 Z=0:8"
//@ H_equals_z  unwind="max(L,Z)+3" mode=X D="CAP=16" split="L=1:5 Z=1:5 N=1:min(L,Z)" | split="L=1:8 Z=1:8 N=1:min(L,Z)"
//@ H_affix     unwind="max(C,Z)+3" mode=X D="CAP=16 ZM=8" split="L=0:6 C=L:L+1 Z=0:4" | split="L=0:10 C=L:L+1 Z=0:6"

/* first occurrence of z in t[0..n) at or after from, n+1 if none */
static size_t occ(const char *t, size_t n, const char *z, size_t zl, size_t from) {
    for (size_t i = 0; i <= CAP; i++) if (i >= from && i + zl <= n) {
        int eq = 1;
        for (size_t j = 0; j < ZM; j++) if (j < zl && t[i + j] != z[j]) eq = 0;
        if (eq) return i;
    }
    return n + 1;
}

static void same(vt_str_t *s, const char *old, size_t len, size_t cap, const char *p) {
    vh_str_is(s, old, len, CAP); CHECK(s->capacity == cap && s->ptr == p && vh_live() == 2, "the string is unchanged");
}
void H_find(void) {
    STR;
    ZSTR(2);
    const char *r = vt_str_find(s, z);
    int64_t ix = vt_str_index_find(s, z);
    size_t e = occ(old, len, z, zl, 0);
    if (e > len) { CHECK(r == NULL, "absent"); CHECK(ix == -1, "absent index"); REACH("absent"); }
    else { CHECK(r == p + e, "first occurrence"); CHECK(ix == (int64_t)e, "index of the first occurrence"); REACH("found"); }
    same(s, old, len, cap, p);
}
void H_count(void) {
    STR; ZSTR(2);
    size_t r = vt_str_can_find(s, z), e = 0, at = 0;
    for (size_t i = 0; i < len; i++) if (i >= at && i + zl <= len) {
        int eq = 1; for (size_t j = 0; j < zl; j++) if (old[i + j] != z[j]) eq = 0;
        if (eq) { e++; at = i + zl; }
    }
    CHECK(r == e, "number of non-overlapping occurrences");
    same(s, old, len, cap, p);
    if (e > 1) REACH("several"); else if (e == 0) REACH("none");
}
void H_index(void) {
    STR;
    char c = vh_char(); ASSUME(c != 0);
    int64_t r = vt_str_index_of(s, c), e = -1;
    for (size_t i = CAP; i-- > 0;) if (i < len && old[i] == c) e = (int64_t)i;
    CHECK(r == e, "index of a character");
    same(s, old, len, cap, p);
    if (e < 0) REACH("absent"); else REACH("found");
}
void H_affix(void) {
    STR;
    ZSTR(2);
    bool st = zl <= len, en = zl <= len;
    for (size_t j = 0; j < ZM; j++) if (j < zl && zl <= len) { if (old[j] != z[j]) st = false; if (old[len - zl + j] != z[j]) en = false; }
    CHECK(vt_str_starts_with(s, z) == st, "starts_with");
    CHECK(vt_str_ends_with(s, z) == en, "ends_with");
    same(s, old, len, cap, p);
    if (st && !en) REACH("prefix only"); else if (en && !st) REACH("suffix only"); else if (!st && zl > len) REACH("longer");
}

void H_equals(void) {
    size_t x = vh_split(0), y = vh_split(2); char oa[CAP + 1], ob[CAP + 1]; vt_str_t *a = vh_str_lc(x, vh_split(1), oa), *b = vh_str_lc(y, y, ob);
    bool e = a->len == b->len;
    for (size_t i = 0; i < CAP; i++) if (i < a->len && a->len == b->len && oa[i] != ob[i]) e = false;
    CHECK(vt_str_equals(a, b) == e, "equals");
    CHECK(vt_str_equals_z(vt_str_z(a), vt_str_z(b)) == e, "equals_z");
    if (e) REACH("equal"); else REACH("different");
}
void H_equals_z(void) {
    size_t x = vh_split(0), y = vh_split(1), n = vh_split(2); char a[CAP + 1], b[CAP + 1]; char *p = vh_zn(a, CAP + 1, x, 1), *q = vh_zn(b, CAP + 1, y, 1);
    bool e = x == y;
    for (size_t i = 0; i < CAP; i++) if (i < x && x == y && p[i] != q[i]) e = false;
    CHECK(vt_str_equals_z(p, q) == e, "equals_z");
    bool f = true; for (size_t i = 0; i < CAP; i++) if (i < n && p[i] != q[i]) f = false;
    CHECK(vt_str_equals_n(p, q, n) == f, "equals_n");
    if (f && !e) REACH("common prefix"); else if (!f) REACH("different");
}
