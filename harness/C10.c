/* C10: typed element accessors of vectors and spans */
#include "hv.h"
//@ H_i8  unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_u8  unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_i16 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_u16 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_i32 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_u32 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_i64 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_u64 unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_f   unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_d   unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
//@ H_r   unwind=40 mode=X split="S=0:4" D="VB=40 MAXCPY=48"
static int same(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; int ok = 1; for (size_t i = 0; i < n; i++) ok = ok & (x[i] == y[i]); return ok; }
/* scenario 0: push at both ends, get, pop; 1: insert and set; 2: find; 3: span over an array; 4: pop until empty.
   Values are arbitrary bit patterns: a typed function must be the identity on the representation. */
#define BITS(T, t) \
static T mk##t(void) { union { T v; unsigned char b[16]; } u; for (size_t i = 0; i < sizeof(T); i++) u.b[i] = vh_u8(); return u.v; } \
static int is##t(const T *a, const T *b) { return same(a, b, sizeof(T)); }
/* long double has padding: values of 32-bit integers, compared by value */
static real mkr(void) { return (real)(int32_t)vh_u32(); }
static int isr(const real *a, const real *b) { return *a == *b; }
#define TYPED(T, t) \
static void eq##t(T a, T b) { CHECK(is##t(&a, &b), "typed value differs"); } \
void H_##t(void) { \
    size_t S = vh_split(0); T a = mk##t(), b = mk##t(), c = mk##t(); ASSUME(a == a); ASSUME(b == b); ASSUME(c == c); \
    if (S < 3 || S == 4) { \
        vt_vec_t *v = vt_vec_create(2, sizeof(T), NULL); \
        if (S == 0) { vt_vec_push_back##t(v, a); vt_vec_push_back##t(v, b); vt_vec_push_front##t(v, c); \
            CHECK(v->len == 3, "length"); eq##t(vt_vec_get##t(v, 0), c); eq##t(vt_vec_get##t(v, 1), a); eq##t(vt_vec_get##t(v, 2), b); \
            eq##t(vt_vec_pop_get##t(v), b); CHECK(v->len == 2, "length"); eq##t(*(T *)vt_vec_get(v, 1), a); } \
        if (S == 1) { vt_vec_push_back##t(v, a); vt_vec_insert##t(v, b, 0); vt_vec_insert##t(v, c, 1); \
            CHECK(v->len == 3, "length"); eq##t(vt_vec_get##t(v, 0), b); eq##t(vt_vec_get##t(v, 1), c); eq##t(vt_vec_get##t(v, 2), a); \
            T d = mk##t(); ASSUME(d == d); vt_vec_set##t(v, d, 1); eq##t(vt_vec_get##t(v, 1), d); eq##t(vt_vec_get##t(v, 0), b); eq##t(vt_vec_get##t(v, 2), a); } \
        if (S == 2) { T d = mk##t(); vt_vec_push_back##t(v, a); vt_vec_push_back##t(v, b); vt_vec_push_back##t(v, c); \
            int64_t w = is##t(&d, &a) ? 0 : is##t(&d, &b) ? 1 : is##t(&d, &c) ? 2 : -1; \
            CHECK(vt_vec_can_find##t(v, d) == w, "first position of the value, or -1"); } \
        if (S == 4) { T z = 0; vt_vec_push_front##t(v, a); eq##t(vt_vec_pop_get##t(v), a); CHECK(v->len == 0, "empty"); eq##t(vt_vec_pop_get##t(v), z); CHECK(v->len == 0, "empty"); CHECK(vt_vec_can_find##t(v, a) == -1, "nothing to find"); } \
        vt_vec_destroy(v); \
    } else { \
        T arr[4]; arr[0] = a; arr[1] = b; arr[2] = c; arr[3] = a; T d = mk##t(); ASSUME(d == d); \
        vt_span_t s = vt_span_from_to(arr, 1, 3, sizeof(T)); \
        eq##t(vt_span_get##t(s, 0), b); eq##t(vt_span_get##t(s, 1), c); \
        vt_span_set##t(s, d, 1); eq##t(vt_span_get##t(s, 1), d); eq##t(vt_span_get##t(s, 0), b); eq##t(arr[2], d); eq##t(arr[0], a); eq##t(arr[1], b); eq##t(arr[3], a); \
        vt_span_set##t(s, d, 0); eq##t(arr[1], d); eq##t(arr[2], d); \
    } \
    CHECK(vh_live() == 0, "released"); REACH("done"); \
}
#define BOTH(T, t) BITS(T, t) TYPED(T, t)
BOTH(int8_t, i8) BOTH(uint8_t, u8) BOTH(int16_t, i16) BOTH(uint16_t, u16) BOTH(int32_t, i32) BOTH(uint32_t, u32)
BOTH(int64_t, i64) BOTH(uint64_t, u64) BOTH(float, f) BOTH(double, d) TYPED(real, r)
