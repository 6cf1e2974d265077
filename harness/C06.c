/* C06: splitting, joining and popping pieces */
#include "hs.h"
#include "vita/container/plist.h"
//@ H_split    unwind=40 opts="--paths lifo" mode=X D="CAP=5 ZM=2 VH_PATHS=1" split="L=1:4 C=L:L Z=1:min(L,2) G=0:2" | D="CAP=7 ZM=3 VH_PATHS=1" split="L=1:6 C=L:L+1 Z=1:min(L,3) G=0:2"
//@ H_between  unwind=40 opts="--paths lifo" mode=X D="CAP=5 ZM=2 VH_PATHS=1" split="L=0:4 Z=1:2 R=1:2 G=0:2" | D="CAP=7 ZM=3 VH_PATHS=1" split="L=0:6 Z=1:3 R=1:3 G=0:2"
//@ H_pop      unwind=40 opts="--paths lifo" mode=X D="CAP=6 ZM=2 VH_PATHS=1" split="L=0:3 C=L:L+1 Z=0:2 G=0:2 B=0:1" where="C==L or G==0" | D="CAP=8 ZM=3 VH_PATHS=1" split="L=0:6 C=L:L+1 Z=0:3 G=0:3 B=0:1"
//@ H_join     unwind=24 mode=X D="CAP=3 ZM=2" split="G=0:1 Z=1:2 K=1:3 A=1:2 B=1:2" where="G==0 or A==B" | split="G=0:1 Z=1:2 K=1:3 A=1:3 B=1:3" D="CAP=3 ZM=3"
#define P (CAP + 1)
static int occ_at(const char *t, size_t n, const char *z, size_t zl, size_t i) {
    int eq = i + zl <= n;
    for (size_t j = 0; j < ZM; j++) eq = eq & ((j >= zl) | (t[i + j <= CAP ? i + j : CAP] == z[j < zl ? j : zl]));
    return eq;
}
static void piece_is(const vt_str_t *s, const char *t, size_t at, size_t n, size_t max) {
    CHECK(s->len == n && s->capacity >= n && !s->is_view, "length of the piece");
    CHECK(vh_block_size(s->ptr) >= s->capacity + 1, "buffer of the piece");
    n = s->len; const char *q = vt_str_z(s);
    for (size_t i = 0; i < max; i++) if (i < n) CHECK(q[i] == t[at + i <= CAP ? at + i : CAP], "text of the piece");
    CHECK(q[n] == 0, "terminator of the piece");
}
void H_split(void) {
    STR; ZSTR(2); size_t g = vh_split(3); vh_hint(p, len);
    /* reference: non-empty stretches between the left-to-right separators */
    size_t st[P + 1], ln[P + 1], cnt = 0, next = 0; int found = 0;
    for (size_t i = 0; i <= P; i++) st[i] = ln[i] = 0;
    for (size_t i = 0; i < P; i++) {
        int sep = (i >= next) & (i < len) & occ_at(old, len, z, zl, i), end = i == len;
        int push = (sep | end) & (i > next);
        st[cnt] = push ? next : st[cnt]; ln[cnt] = push ? i - next : ln[cnt]; cnt += push;
        next = sep ? i + zl : next; found = found | sep;
    }
    /* but a stretch starts at the end of the previous separator: 'next' doubles as its start */
    vt_plist_t *l = NULL; int dummy;
    if (g) { l = vt_plist_create(g == 1 ? 1 : 4, NULL); vt_plist_push_back(l, &dummy); }
    size_t base = vh_live();
    vt_plist_t *r = vt_str_split(l, s, z);
    CHECK((r == NULL) == !found, "a result exactly when the separator occurs");
    if (r == NULL) { CHECK(vh_live() == base, "nothing allocated"); REACH("not found"); }
    else {
        CHECK(l == NULL || r == l, "result list");
        size_t k = vt_plist_len(r);
        CHECK(k == cnt, "number of pieces");
        for (size_t i = 0; i < P; i++) if (i < k) piece_is(vt_plist_get(r, i), old, st[i], ln[i], CAP);
        if (k == 0) REACH("only separators"); else if (k > 1) REACH("several");
        CHECK(vh_live() == base + (l ? 0 : 2) + 2 * k, "exactly the list and the pieces are allocated");
    }
    vh_str_is(s, old, len, CAP);
}
void H_between(void) {
    size_t L = vh_split(0); char tb[CAP + 1], old[CAP + 1]; char *t = vh_zn(tb, CAP + 1, L, 1);
    for (size_t i = 0; i <= CAP; i++) old[i] = i < L ? t[i] : 0;
    size_t a = vh_split(1), b = vh_split(2), g = vh_split(3); char ab[ZM + 1], bb[ZM + 1]; char *za = vh_zn(ab, ZM + 1, a, 1), *zr = vh_zn(bb, ZM + 1, b, 1);
    size_t x = L + 1, y = L + 1;
    for (size_t i = 0; i < P; i++) x = (x > L) & occ_at(old, L, za, a, i) ? i : x;
    for (size_t i = 0; i < P; i++) y = (x <= L) & (y > L) & (i >= x + a) & occ_at(old, L, zr, b, i) ? i : y;
    vt_str_t *s = g ? vt_str_create_capacity(g == 1 ? 1 : 6, NULL) : NULL; if (g) vt_str_append(s, "q");
    size_t base = vh_live();
    vt_str_t *r = vt_str_split_between(s, t, za, zr);
    CHECK((r == NULL) == (y > L), "a result exactly when both markers occur");
    if (r == NULL) { CHECK(vh_live() == base, "nothing allocated"); REACH("missing"); }
    else {
        CHECK(s == NULL || r == s, "result");
        piece_is(r, old, x + a, y - x - a, CAP);
        if (vt_str_len(r) == 0) REACH("empty"); else REACH("text");
        CHECK(vh_live() == (s ? base : base + 2), "exactly the result is allocated");
    }
}
void H_pop(void) {
    STR; ZSTR(2); size_t g = vh_split(3); bool back = vh_split(4);
    size_t pos = len + 1, next = 0;
    for (size_t i = 0; i < P; i++) {
        int o = (i >= next) & (i < len) & (zl > 0) & occ_at(old, len, z, zl, i) & ((pos > len) | back);
        pos = o ? i : pos; next = o ? i + zl : next;
    }
    size_t n = pos > len ? 0 : back ? len - pos - zl : pos;
    vt_str_t *sr = g ? vt_str_create_capacity(g == 1 ? 1 : 6, NULL) : NULL; if (g) vt_str_append(sr, g == 1 ? "q" : "qrstu");
    size_t base = vh_live();
    vt_str_t *r = back ? vt_str_pop_get_last(sr, s, z) : vt_str_pop_get_first(sr, s, z);
    CHECK(sr != NULL || (r == NULL) == (n == 0), "a result exactly when something is popped");
    CHECK(sr == NULL || r == sr, "result");
    if (r == NULL || (sr && n == 0)) {
        CHECK(vh_live() == base, "nothing popped"); vh_str_is(s, old, len, CAP);
        if (sr) vh_str_is(sr, g == 1 ? "q" : "qrstu", g == 1 ? 1 : 5, 5);
        REACH("nothing");
    } else {
        piece_is(r, old, back ? pos + zl : 0, n, CAP);
        piece_is(s, old, back ? 0 : pos + zl, back ? pos : len - pos - zl, CAP);
        if (back) REACH("back"); else REACH("front");
        CHECK(vh_live() == (sr ? base : base + 2), "exactly the result is allocated");
    }
}
/* G: 0 result allocated, 1 appended to an existing string; Z separator length; K pieces of lengths A, B, A */
void H_join(void) {
    size_t g = vh_split(0), zl = vh_split(1), k = vh_split(2), pl[3]; pl[0] = vh_split(3); pl[1] = vh_split(4); pl[2] = pl[0];
    char zb[ZM + 1]; char *z = vh_zn(zb, ZM + 1, zl, 1); char b[3][CAP + 1]; char *q[3];
    for (size_t i = 0; i < 3; i++) q[i] = vh_zn(b[i], CAP + 1, pl[i], 1);
    bool variadic = vh_bool();
    vt_str_t *s = NULL; char e[3 * CAP + 2 * ZM + 2]; size_t n = 0;
    if (g) { s = vt_str_create("xy", NULL); e[n++] = 'x'; e[n++] = 'y'; }
    for (size_t i = 0; i < 3; i++) if (i < k) {
        if (i) for (size_t j = 0; j < ZM; j++) if (j < zl) e[n++] = z[j];
        for (size_t j = 0; j < CAP; j++) if (j < pl[i]) e[n++] = q[i][j];
    }
    vt_str_t *r;
    if (variadic) r = k == 1 ? vt_str_join_n(s, z, 1, q[0]) : k == 2 ? vt_str_join_n(s, z, 2, q[0], q[1]) : vt_str_join_n(s, z, 3, q[0], q[1], q[2]);
    else {
        vt_plist_t *l = vt_plist_create(3, NULL);
        for (size_t i = 0; i < 3; i++) if (i < k) vt_plist_push_back(l, q[i]);
        r = vt_str_join(s, z, l);
        for (size_t i = 0; i < 3; i++) if (i < k) CHECK(vt_plist_get(l, i) == q[i], "list unchanged");
        CHECK(vt_plist_len(l) == k, "list unchanged");
        vt_plist_destroy(l);
    }
    CHECK(r != NULL && (s == NULL || r == s), "result");
    vh_str_is(r, e, n, 3 * CAP + 2 * ZM + 2);
    vt_str_destroy(r); CHECK(vh_live() == 0, "blocks");
    if (variadic) REACH("variadic"); else REACH("list");
}
