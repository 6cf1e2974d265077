/* C11: the pointer list is a sequence of pointers it does not own */
#include "hv.h"
//@ H_push   unwind=100 mode=X split="L=0:3 C=1:4 F=0:1" where="L<=C" D="MAXCPY=64" | split="L=0:6 C=1:7 F=0:1" where="L<=C"
//@ H_insert unwind=100 mode=X split="L=1:4 C=1:4 A=0:L-1" where="L<=C" D="MAXCPY=64" | split="L=1:6 C=1:7 A=0:L-1" where="L<=C"
//@ H_remove unwind=100 mode=X split="L=1:4 C=1:4 A=0:L-1 S=0:1" where="L<=C and C-L<2" D="MAXCPY=64" | split="L=1:6 C=1:7 A=0:L-1 S=0:1" where="L<=C"
//@ H_remel  unwind=100 mode=X split="L=0:4 C=1:4 S=0:1" where="L<=C and C-L<2" D="MAXCPY=64"
//@ H_misc   unwind=100 mode=X split="L=0:4 C=1:4 O=0:3" where="L<=C and C-L<3" D="MAXCPY=64"
//@ H_room   unwind=100 mode=X split="L=0:3 C=1:3 O=0:2 N=1:4" where="L<=C and (O or N==1)" D="MAXCPY=64"
//@ H_hist   unwind=100 mode=X split="C=1:1 A=0:8 B=0:8 D=0:8" where="A in (0,1,8)" D="MAXCPY=64" | split="C=1:2 A=0:8 B=0:8 D=0:8"
#define LST size_t L = vh_split(0), C = vh_split(1); void *old[8], *e[12]; vt_plist_t *l = vh_plist(L, C, old); void *p = l->ptr; (void)p; for (size_t i = 0; i < L; i++) e[i] = old[i]
static void *arb(void) { size_t k = vh_range(0, 7); return &vh_objs[k]; }
void H_push(void) {
    LST; size_t F = vh_split(2); void *x = arb();
    if (F) { vt_plist_push_front(l, x); e[0] = x; for (size_t i = 0; i < L; i++) e[i + 1] = old[i]; }
    else { vt_plist_push_back(l, x); e[L] = x; }
    vh_plist_is(l, e, L + 1);
    CHECK(L == C || (l->ptr == p && l->capacity == C), "no reallocation while there is room");
    vt_plist_destroy(l); CHECK(vh_live() == 0, "released, pointees untouched"); REACH("pushed");
}
void H_insert(void) {
    LST; size_t A = vh_split(2); void *x = arb();
    vt_plist_insert(l, x, A);
    for (size_t i = 0; i <= L; i++) e[i] = i < A ? old[i] : i == A ? x : old[i - 1];
    vh_plist_is(l, e, L + 1);
    CHECK(L == C || (l->ptr == p && l->capacity == C), "no reallocation while there is room");
    REACH("inserted");
}
void H_remove(void) {
    LST; size_t A = vh_split(2), S = vh_split(3);
    vt_plist_remove(l, A, S ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE);
    for (size_t i = 0; i + 1 < L; i++) e[i] = i < A ? old[i] : S ? (i == A ? old[L - 1] : old[i]) : old[i + 1];
    vh_plist_is(l, e, L - 1); CHECK(l->ptr == p && l->capacity == C && vh_live() == 2, "no reallocation"); REACH("removed");
}
void H_remel(void) {
    LST; size_t S = vh_split(2); void *x = arb(); size_t w = L;
    for (size_t i = L; i > 0; i--) if (old[i - 1] == x) w = i - 1;
    CHECK(vt_plist_can_find(l, x) == (w < L ? (int64_t)w : -1), "first position of the pointer, or -1");
    vt_plist_remove_element(l, x, S ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE);
    for (size_t i = 0; i + 1 < L; i++) e[i] = i < w ? old[i] : S ? (i == w ? old[L - 1] : old[i]) : old[i + 1];
    if (w < L) { vh_plist_is(l, e, L - 1); REACH("found"); } else { vh_plist_is(l, old, L); REACH("absent"); }
    CHECK(l->ptr == p && l->capacity == C, "no reallocation");
}
void H_misc(void) {
    LST; size_t O = vh_split(2);
    if (O == 0) { if (L) { size_t at = vh_range(0, 7); ASSUME(at < L); void *x = arb(); vt_plist_set(l, x, at); e[at] = x; vh_plist_is(l, e, L); CHECK(vt_plist_get(l, at) == x, "set then get"); } REACH("set"); }
    if (O == 1) { void *q = vt_plist_pop_get(l); CHECK(q == (L ? old[L - 1] : NULL), "popped"); vh_plist_is(l, e, L ? L - 1 : 0); REACH("pop_get"); }
    if (O == 2) { if (vh_bool()) { vt_plist_pop(l); vh_plist_is(l, e, L ? L - 1 : 0); } else { vt_plist_clear(l); vh_plist_is(l, e, 0); } REACH("pop/clear"); }
    CHECK(l->ptr == p && l->capacity == C, "no reallocation");
    if (O == 3) {
        vt_plist_t *d = vt_plist_dup(l, NULL);
        vh_plist_is(d, e, L); CHECK(d->ptr != l->ptr && d != l, "independent");
        void *x = arb(); vt_plist_push_back(d, x); vh_plist_is(l, e, L); e[L] = x;
        vt_plist_destroy(l); vh_plist_is(d, e, L + 1); vt_plist_destroy(d); CHECK(vh_live() == 0, "released"); REACH("dup");
    }
}
void H_room(void) {
    LST; size_t O = vh_split(2), N = vh_split(3), n = L;
    if (O == 0) { vt_plist_shrink(l); vh_plist_is(l, e, L); CHECK(l->capacity == (L ? L : 1) && vh_block_size(l->ptr) == l->capacity * sizeof(void *), "capacity equals length"); REACH("shrink"); }
    if (O == 1) { vt_plist_reserve(l, N); vh_plist_is(l, e, L); CHECK(l->capacity >= C + N, "room added"); REACH("reserve"); }
    if (O == 2) { vt_plist_resize(l, N); n = N; CHECK(l->len == N && l->capacity == N && vh_block_size(l->ptr) >= N * sizeof(void *), "resized"); for (size_t i = 0; i < L; i++) if (i < N) CHECK(l->ptr2[i] == old[i], "kept"); REACH("resize"); }
    void *x = arb(); vt_plist_push_back(l, x);
    CHECK(l->len == n + 1 && l->capacity > n && vt_plist_get(l, n) == x, "push after");
    vt_plist_destroy(l); CHECK(vh_live() == 0, "released");
}
void H_hist(void) {
    size_t C = vh_split(0), ops[3]; ops[0] = vh_split(1); ops[1] = vh_split(2); ops[2] = vh_split(3);
    vt_plist_t *l = vt_plist_create(C, NULL); void *m[12]; size_t n = 0;
    for (int k = 0; k < 3; k++) {
        void *x = arb();
        switch (ops[k]) {
        case 0: vt_plist_push_back(l, x); m[n++] = x; break;
        case 1: vt_plist_push_front(l, x); for (size_t i = n; i > 0; i--) m[i] = m[i - 1]; m[0] = x; n++; break;
        case 2: vt_plist_shrink(l); break;
        case 3: vt_plist_pop(l); if (n) n--; break;
        case 4: if (n) { vt_plist_remove(l, 0, VT_REMOVE_STRATEGY_STABLE); for (size_t i = 1; i < n; i++) m[i - 1] = m[i]; n--; } break;
        case 5: if (n) { vt_plist_remove(l, 0, VT_REMOVE_STRATEGY_FAST); m[0] = m[n - 1]; n--; } break;
        case 6: vt_plist_clear(l); n = 0; break;
        case 7: if (n) { vt_plist_insert(l, x, n - 1); m[n] = m[n - 1]; m[n - 1] = x; n++; } else vt_plist_reserve(l, 2); break;
        case 8: vt_plist_push_back(l, x); vt_plist_push_back(l, &vh_objs[0]); m[n++] = x; m[n++] = &vh_objs[0]; break;
        }
        vh_plist_is(l, m, n);
    }
    vt_plist_destroy(l); CHECK(vh_live() == 0, "released"); REACH("done");
}
