/* C04: removing, replacing and inserting at occurrences of a substring */
#include "hs.h"
//@ H_remove_first unwind="max(C,Z)+3" mode=X D="CAP=6 ZM=3 RM=1" split="L=0:5 C=L:L+1 Z=1:3" | D="CAP=9 ZM=5 RM=1" split="L=0:8 C=L:L+1 Z=1:5"
//@ H_remove_last  unwind="max(C,Z)+3" mode=X D="CAP=6 ZM=3 RM=1" split="L=0:5 C=L:L+1 Z=1:3" | D="CAP=9 ZM=5 RM=1" split="L=0:7 C=L:L+1 Z=1:4"
//@ H_remove_all   unwind="max(C,Z)+3" mode=X D="CAP=6 ZM=3 RM=1" split="L=0:4 C=L:L Z=1:2" | D="CAP=9 ZM=5 RM=1" split="L=0:6 C=L:L+1 Z=1:3"
//@ H_remove_c     unwind="max(C,Z)+3" mode=X D="CAP=6 ZM=3 RM=1" split="L=0:5 C=L:L+1 Z=0:3" | D="CAP=9 ZM=5 RM=1" split="L=0:8 C=L:L+1 Z=0:4"
//@ H_replace      unwind=40 mode=X opts="--paths lifo" D="CAP=6 ZM=2 RM=3 VH_PATHS=1" split="L=0:4 C=L:L+1 Z=0:2 R=0:2" where="(Z>0 and R>0 and Z!=R and (L<3 or (Z==2 and (L<4 or C==L)) or (L,C)==(3,4))) or (L==2 and C==2 and Z*R==0)" | split="L=0:5 C=L:L+1 Z=1:3 R=1:3" where="" D="CAP=8 ZM=3 RM=3 VH_PATHS=1" timeout=900
//@ H_replace_eq   unwind="max(C,Z)+3" uset="vt_str_replace.0:{L//Z+2}" mode=X D="CAP=5 ZM=2 RM=2" split="L=0:4 C=L:L+1 Z=1:2 R=Z:Z" | D="CAP=7 ZM=3 RM=3" split="L=0:6 C=L:L+1 Z=1:3 R=Z:Z"
//@ H_replace_first unwind=40 opts="--paths lifo" mode=X D="CAP=5 ZM=2 RM=3 VH_PATHS=1" split="L=0:4 C=L:L+1 Z=0:min(L,2) R=0:2" | D="CAP=8 ZM=3 RM=4 VH_PATHS=1" split="L=0:6 C=L:L+2 Z=0:min(L,3) R=0:4"
//@ H_replace_last unwind=40 opts="--paths lifo" mode=X D="CAP=5 ZM=2 RM=3 VH_PATHS=1" split="L=0:4 C=L:L+1 Z=0:2 R=0:2" where="L<4 or (C==L and Z==2)" | D="CAP=7 ZM=3 RM=4 VH_PATHS=1" split="L=0:5 C=L:L+2 Z=0:3 R=0:4" where=""
//@ H_replace_c    unwind="max(C,Z)+3" mode=X D="CAP=5 ZM=3 RM=3" split="L=0:4 C=L:L Z=0:3 R=0:Z" | D="CAP=8 ZM=4 RM=4" split="L=0:8 C=L:L Z=0:4 R=0:Z"
//@ H_insert_at    unwind="C+R+3" mode=X D="CAP=5 ZM=2 RM=2" split="L=1:4 C=L:L+1 Z=1:min(L,2) R=1:2" | D="CAP=9 ZM=3 RM=4" split="L=1:7 C=L:L+2 Z=1:min(L,3) R=1:4"
#ifndef RM
#define RM 3
#endif
#define BIG (CAP * (RM + 1) + RM + 2)
static int at_occ(const char *t, size_t n, const char *z, size_t zl, size_t i) {
    int eq = i + zl <= n;
    for (size_t j = 0; j < ZM; j++) eq = eq & ((j >= zl) | (t[i + j <= CAP ? i + j : CAP] == z[j < zl ? j : zl]));
    return eq;
}
static size_t first(const char *t, size_t n, const char *z, size_t zl) {
    size_t r = n + 1;
    for (size_t i = 0; i < CAP; i++) r = (r > n) & (i < n) & at_occ(t, n, z, zl, i) ? i : r;
    return r;
}
/* last of the left-to-right non-overlapping occurrences */
static size_t last(const char *t, size_t n, const char *z, size_t zl) {
    size_t r = n + 1, next = 0;
    for (size_t i = 0; i < CAP; i++) { int o = (i >= next) & (i < n) & at_occ(t, n, z, zl, i); r = o ? i : r; next = o ? i + zl : next; }
    return r;
}
/* e := t with [i, i+cut) replaced by r[0..rl) */
static size_t splice(char *e, const char *t, size_t n, size_t i, size_t cut, const char *r, size_t rl) {
    for (size_t k = 0; k < CAP + RM; k++)
        e[k] = k < i ? t[k <= CAP ? k : CAP] : k < i + rl ? r[k - i < rl ? k - i : 0] : k - rl + cut < n ? t[k - rl + cut] : 0;
    return n - cut + rl;
}
#define REP size_t rl = vh_split(3); char rb[RM + 1]; char *r = vh_zn(rb, RM + 1, rl, 1)

void H_remove_first(void) {
    STR; ZSTR(2); size_t i = first(old, len, z, zl);
    enum VitaStatus st = vt_str_remove_first(s, z);
    char e[CAP + RM];
    if (i > len) { CHECK(st == VT_STATUS_ERROR_ELEMENT_NOT_FOUND, "status when absent"); vh_str_is(s, old, len, CAP); REACH("absent"); }
    else { CHECK(st == VT_STATUS_OPERATION_SUCCESS, "status"); size_t n = splice(e, old, len, i, zl, "", 0); vh_str_is(s, e, n, CAP); REACH("removed"); }
    CHECK(s->capacity == cap && s->ptr == p && vh_live() == 2, "buffer kept");
}
void H_remove_last(void) {
    STR; ZSTR(2); size_t i = last(old, len, z, zl);
    enum VitaStatus st = vt_str_remove_last(s, z);
    char e[CAP + RM];
    if (i > len) { CHECK(st == VT_STATUS_ERROR_ELEMENT_NOT_FOUND, "status when absent"); vh_str_is(s, old, len, CAP); REACH("absent"); }
    else { CHECK(st == VT_STATUS_OPERATION_SUCCESS, "status"); size_t n = splice(e, old, len, i, zl, "", 0); vh_str_is(s, e, n, CAP); if (i > 0) REACH("removed"); }
}
void H_remove_all(void) {
    STR; ZSTR(2);
    CHECK(vt_str_remove_all(s, z) == VT_STATUS_OPERATION_SUCCESS, "status");
    /* reference: remove the first occurrence until there is none */
    char a[CAP + RM]; size_t n = len; int rounds = 0;
    for (size_t k = 0; k < CAP + RM; k++) a[k] = k <= CAP ? old[k] : 0;
    for (size_t k = 0; k < CAP; k++) {
        size_t i = first(a, n, z, zl); if (i > n) break;
        char e[CAP + RM]; n = splice(e, a, n, i, zl, "", 0); rounds++;
        for (size_t j = 0; j < CAP; j++) a[j] = e[j];
    }
    vh_str_is(s, a, n, CAP);
    if (rounds > 1) REACH("several"); else if (rounds == 0) REACH("none");
}
void H_remove_c(void) {
    STR; ZSTR(2);
    vt_str_remove_c(s, z);
    char e[CAP + 1]; size_t n = 0;
    for (size_t i = 0; i < CAP; i++) if (i < len) {
        int hit = 0; for (size_t j = 0; j < ZM; j++) if (j < zl && old[i] == z[j]) hit = 1;
        if (!hit) e[n++] = old[i];
    }
    vh_str_is(s, e, n, CAP);
    if (n == 0 && len > 0) REACH("all"); else if (n < len) REACH("some");
}
static void replace(vt_str_t *s, const char *old, size_t len, const char *z, size_t zl, const char *r, size_t rl) {
    vt_str_replace(s, z, r);
    char e[BIG + RM]; size_t n = 0, i = 0; int hits = 0;
    /* written without branches: the query is explored path by path */
    for (size_t k = 0; k < CAP; k++) {
        int act = i < len, occ = act & (zl > 0) & (rl > 0) & (i + zl <= len);
        for (size_t j = 0; j < ZM; j++) occ = occ & ((j >= zl) | (old[i + j <= CAP ? i + j : CAP] == z[j < zl ? j : zl]));
        for (size_t j = 0; j < RM; j++) e[n + j] = occ ? r[j < rl ? j : rl] : old[i <= CAP ? i : CAP];
        n += occ ? rl : act; i += occ ? zl : act; hits += occ;
    }
    vh_str_is(s, e, n, CAP * RM < 60 ? CAP * RM : 60);
    CHECK(vh_live() == 2, "blocks");
    if (hits > 1) REACH("several"); else if (hits == 0) REACH("none");
}
void H_replace(void) { STR; ZSTR(2); REP; replace(s, old, len, z, zl, r, rl); }
void H_replace_eq(void) { STR; ZSTR(2); REP; replace(s, old, len, z, zl, r, rl); }
static void replace_one(bool lst) {
    STR; ZSTR(2); REP;
    size_t i = zl == 0 || rl == 0 ? len + 1 : lst ? last(old, len, z, zl) : first(old, len, z, zl);
    if (lst) vt_str_replace_last(s, z, r); else vt_str_replace_first(s, z, r);
    char e[CAP + RM];
    if (i > len) { vh_str_is(s, old, len, CAP); REACH("absent"); }
    else { size_t n = splice(e, old, len, i, zl, r, rl); vh_str_is(s, e, n, CAP + RM); REACH("replaced"); }
    CHECK(vh_live() == 2, "blocks");
}
void H_replace_first(void) { replace_one(false); }
void H_replace_last(void) { replace_one(true); }
void H_replace_c(void) {
    STR; ZSTR(2); REP;
    vt_str_replace_c(s, z, r);
    for (size_t i = 0; i < CAP; i++) if (i < len && rl) {
        char o = old[i];
        for (size_t j = 0; j < ZM; j++) if (j < zl && o == z[j]) { old[i] = r[j < rl ? j : rl - 1]; break; }
    }
    vh_str_is(s, old, len, CAP);
    if (rl < zl) REACH("short"); else REACH("equal");
}
void H_insert_at(void) {
    STR; ZSTR(2); REP; bool after = vh_bool();
    size_t i = first(old, len, z, zl);
    if (after) vt_str_insert_after(s, z, r); else vt_str_insert_before(s, z, r);
    char e[CAP + RM];
    if (i > len) { vh_str_is(s, old, len, CAP); REACH("absent"); }
    else { size_t n = splice(e, old, len, after ? i + zl : i, 0, r, rl); vh_str_is(s, e, n, CAP + RM); if (after) REACH("after"); else REACH("before"); }
    CHECK(vh_live() == 2, "blocks");
}
