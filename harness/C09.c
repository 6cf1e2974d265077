/* C09: the vector is a sequence of fixed-size elements */
#include "hv.h"
//@ H_ctor   unwind=60 mode=X split="E=1:8 C=1:4" where="E in (1,3,8,16)" D="VB=64"
//@ H_push   unwind=60 mode=X split="L=0:3 C=1:4 E=1:3 F=0:1" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48" | split="L=0:5 C=1:6 E=1:8 F=0:1" where="L<=C and E in (1,2,3,4,8)" D="VB=48 MAXCPY=64"
//@ H_insert unwind=60 mode=X split="L=1:3 C=1:4 E=1:3 A=0:L-1" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48" | split="L=1:6 C=1:6 E=1:8 A=0:L-1" where="L<=C and E in (1,2,3,4,8)" D="VB=48 MAXCPY=64"
//@ H_remove unwind=60 mode=X split="L=1:3 C=1:4 E=1:3 A=0:L-1 S=0:1" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48" | split="L=1:6 C=1:6 E=1:8 A=0:L-1 S=0:1" where="L<=C and E in (1,2,3,4,8)" D="VB=48 MAXCPY=64"
//@ H_pop    unwind=60 mode=X split="L=0:3 C=1:4 E=1:3" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48"
//@ H_setget unwind=60 mode=X split="L=1:3 C=1:4 E=1:3 A=0:L-1" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48"
//@ H_find   unwind=60 mode=X split="L=0:3 C=1:4 E=1:3" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48"
//@ H_room   unwind=60 mode=X split="L=0:3 C=1:3 E=1:3 O=0:3 N=1:4" where="L<=C and E in (1,3) and (O in (1,2) or N==1)" D="VB=48"
//@ H_dup    unwind=60 mode=X split="L=0:4 C=1:4 E=1:3" where="L<=C and E in (1,3)" D="VB=40 MAXCPY=48"
//@ H_hist   unwind=60 mode=X split="C=1:1 A=0:7 B=0:7 D=0:7 E=2:2" where="A in (0,1,7) and B!=6" D="VB=24" | split="C=1:2 A=0:7 B=0:7 D=0:7 E=1:4" D="VB=48"
#define VEC size_t L = vh_split(0), C = vh_split(1), E = vh_split(2); unsigned char old[VB + 16], e[VB + 32]; vt_vec_t *v = vh_vec(L, C, E, old); void *p = v->ptr; (void)p; for (size_t i = 0; i < L * E; i++) e[i] = old[i]
static void val(unsigned char *x, size_t E) { for (size_t i = 0; i < E; i++) x[i] = vh_u8(); }
void H_ctor(void) {
    size_t E = vh_split(0), C = vh_split(1);
    vt_vec_t *v = vt_vec_create(C, E, NULL);
    CHECK(v->len == 0 && vt_vec_capacity(v) == C && vh_block_size(v->ptr) >= C * E && v->elsize == E && v->alloctr == NULL && !v->is_view, "new vector");
    CHECK(vt_vec_slide_front(v) == NULL, "nothing to visit");
    int zero = 1; for (size_t i = 0; i < C * E; i++) zero = zero & (((char *)v->ptr)[i] == 0);
    CHECK(zero, "zeroed");
    vt_vec_destroy(v); CHECK(vh_live() == 0, "released");
    REACH("done");
}
void H_push(void) {
    VEC; size_t F = vh_split(3); unsigned char x[16]; val(x, E);
    if (F) { vt_vec_push_front(v, x); for (size_t i = 0; i < (L + 1) * E; i++) e[i] = i < E ? x[i] : old[i - E]; }
    else { vt_vec_push_back(v, x); for (size_t i = L * E; i < (L + 1) * E; i++) e[i] = x[i - L * E]; }
    vh_vec_is(v, e, L + 1, E);
    CHECK(L == C || (v->ptr == p && v->capacity == C), "no reallocation while there is room");
    CHECK(v->capacity > L, "room");
    vt_vec_destroy(v); CHECK(vh_live() == 0, "released"); REACH("pushed");
}
void H_insert(void) {
    VEC; size_t A = vh_split(3); unsigned char x[16]; val(x, E);
    vt_vec_insert(v, x, A);
    for (size_t i = 0; i < (L + 1) * E; i++) e[i] = i < A * E ? old[i] : i < (A + 1) * E ? x[i - A * E] : old[i - E];
    vh_vec_is(v, e, L + 1, E);
    CHECK(L == C || (v->ptr == p && v->capacity == C), "no reallocation while there is room");
    vt_vec_destroy(v); CHECK(vh_live() == 0, "released"); REACH("inserted");
}
void H_remove(void) {
    VEC; size_t A = vh_split(3), S = vh_split(4);
    vt_vec_remove(v, A, S ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE);
    for (size_t i = 0; i < (L - 1) * E; i++) e[i] = i < A * E ? old[i] : S ? (i < (A + 1) * E ? old[(L - 1) * E + i - A * E] : old[i]) : old[i + E];
    vh_vec_is(v, e, L - 1, E);
    CHECK(v->ptr == p && v->capacity == C, "no reallocation");
    CHECK(vh_live() == 2, "nothing else allocated"); REACH("removed");
}
void H_pop(void) {
    VEC; bool g = vh_bool(); unsigned char *q = NULL;
    if (g) { q = vt_vec_pop_get(v); CHECK(q == (L ? (unsigned char *)p + (L - 1) * E : NULL), "popped element"); if (L) for (size_t i = 0; i < E; i++) CHECK(q[i] == old[(L - 1) * E + i], "popped value"); }
    else vt_vec_pop(v);
    vh_vec_is(v, e, L ? L - 1 : 0, E);
    CHECK(v->ptr == p && v->capacity == C, "no reallocation");
    if (L) { if (g) REACH("got"); else REACH("popped"); } else REACH("empty");
}
void H_setget(void) {
    VEC; size_t A = vh_split(3); unsigned char x[16]; val(x, E);
    unsigned char *q = vt_vec_get(v, A);
    for (size_t i = 0; i < E; i++) CHECK(q[i] == old[A * E + i], "get");
    vt_vec_set(v, x, A);
    for (size_t i = 0; i < E; i++) e[A * E + i] = x[i];
    vh_vec_is(v, e, L, E); CHECK(v->ptr == p && v->capacity == C, "no reallocation"); REACH("set");
}
void H_find(void) {
    VEC; unsigned char x[16]; val(x, E); int64_t w = -1;
    for (size_t k = 0; k < 8; k++) if (k < L) { int eq = 1; for (size_t i = 0; i < E; i++) eq = eq & (old[k * E + i] == x[i]); if (w < 0 && eq) w = k; }
    CHECK(vt_vec_can_find(v, x) == w, "first position of the value, or -1");
    vh_vec_is(v, e, L, E);
    if (w > 0) REACH("later"); else if (w < 0) REACH("absent");
}
void H_room(void) {
    VEC; size_t O = vh_split(3), N = vh_split(4);
    if (O == 0) { vt_vec_shrink(v); vh_vec_is(v, e, L, E); CHECK(v->capacity == (L ? L : 1) && vh_block_size(v->ptr) == v->capacity * E, "capacity equals length"); REACH("shrink"); }
    if (O == 1) { vt_vec_reserve(v, N); vh_vec_is(v, e, L, E); CHECK(v->capacity >= C + N, "room added"); REACH("reserve"); }
    if (O == 2) { vt_vec_resize(v, N); CHECK(v->len == N && v->capacity == N && vh_block_size(v->ptr) >= N * E, "resized"); for (size_t i = 0; i < L * E; i++) if (i < N * E) CHECK(((unsigned char *)v->ptr)[i] == old[i], "kept"); REACH("resize"); }
    if (O == 3) { vt_vec_clear(v); vh_vec_is(v, e, 0, E); CHECK(v->ptr == p && v->capacity == C, "no reallocation"); REACH("clear"); }
    /* and it keeps working */
    size_t n = v->len; unsigned char x[16]; val(x, E);
    vt_vec_push_back(v, x);
    CHECK(v->len == n + 1 && v->capacity > n, "push after"); unsigned char *q = vt_vec_get(v, n);
    for (size_t i = 0; i < E; i++) CHECK(q[i] == x[i], "pushed");
    vt_vec_destroy(v); CHECK(vh_live() == 0, "released");
}
void H_dup(void) {
    VEC;
    vt_vec_t *d = vt_vec_dup(v, NULL);
    vh_vec_is(d, e, L, E); CHECK(d->ptr != v->ptr && d != v, "independent"); vh_vec_is(v, e, L, E);
    unsigned char x[16]; val(x, E); vt_vec_push_back(d, x);
    vh_vec_is(v, e, L, E); CHECK(v->ptr == p, "original untouched");
    vt_vec_destroy(v); for (size_t i = 0; i < E; i++) e[L * E + i] = x[i];
    vh_vec_is(d, e, L + 1, E);
    vt_vec_destroy(d); CHECK(vh_live() == 0, "released"); REACH("dup");
}
/* three operations from an empty vector, against a reference sequence */
void H_hist(void) {
    size_t C = vh_split(0), ops[3]; ops[0] = vh_split(1); ops[1] = vh_split(2); ops[2] = vh_split(3); size_t E = vh_split(4);
    vt_vec_t *v = vt_vec_create(C, E, NULL); unsigned char m[VB + 64]; size_t n = 0;
    for (int k = 0; k < 3; k++) {
        unsigned char x[16]; val(x, E);
        switch (ops[k]) {
        case 0: vt_vec_push_back(v, x); for (size_t i = 0; i < E; i++) m[n * E + i] = x[i]; n++; break;
        case 1: vt_vec_push_front(v, x); for (size_t i = n * E; i > 0; i--) m[i - 1 + E] = m[i - 1]; for (size_t i = 0; i < E; i++) m[i] = x[i]; n++; break;
        case 2: vt_vec_shrink(v); break;
        case 3: vt_vec_pop(v); if (n) n--; break;
        case 4: if (n) { vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_STABLE); for (size_t i = E; i < n * E; i++) m[i - E] = m[i]; n--; } break;
        case 5: if (n) { vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST); for (size_t i = 0; i < E; i++) m[i] = m[(n - 1) * E + i]; n--; } break;
        case 6: vt_vec_clear(v); n = 0; break;
        case 7: if (n) { size_t c = n > 1 ? n - 1 : 1; vt_vec_resize(v, c); n = c; } else vt_vec_reserve(v, 2); break;
        }
        vh_vec_is(v, m, n, E);
    }
    vt_vec_destroy(v); CHECK(vh_live() == 0, "released"); REACH("done");
}
