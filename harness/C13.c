/* C13: spans alias exactly the given range; generic element access */
#include "hv.h"
//@ H_span  unwind=64 mode=X split="E=1:4 F=0:2 T=F+1:4" D="VB=40 MAXCPY=48" where="E!=2" | split="E=1:8 F=0:4 T=F+1:6" D="VB=60 MAXCPY=64"
//@ H_whole unwind=64 mode=X split="E=1:4 T=1:4" D="VB=40 MAXCPY=48" | split="E=1:8 T=1:7" D="VB=60 MAXCPY=64"
//@ H_array unwind=64 mode=X split="E=1:4 L=1:3" D="VB=40 MAXCPY=48" where="E!=2" | split="E=1:8 L=1:6" D="VB=60 MAXCPY=64"
#define BUF static unsigned char b[64], e[64]; for (size_t i = 0; i < 4 * E + 3 * E; i++) { unsigned char c = vh_u8(); b[i] = c; e[i] = c; }
static void use(vt_span_t s, unsigned char *b, unsigned char *e, size_t F, size_t n, size_t E) {
    CHECK(vt_span_len(s) == n, "length of the span");
    size_t at = vh_range(0, 7); ASSUME(at < n);
    unsigned char *q = vt_span_get(s, at);
    CHECK(q == b + (F + at) * E, "a span aliases the data");
    unsigned char x[8]; for (size_t i = 0; i < E; i++) { x[i] = vh_u8(); }
    vt_span_set(s, x, at);
    for (size_t i = 0; i < E; i++) e[(F + at) * E + i] = x[i];
    int ok = 1; for (size_t i = 0; i < 7 * E; i++) ok = ok & (b[i] == e[i]);
    CHECK(ok, "setting through the span changes exactly that element");
    CHECK(vt_span_len(s) == n && vh_live() == 0, "no allocation");
}
void H_span(void) {
    size_t E = vh_split(0), F = vh_split(1), T = vh_split(2); static unsigned char b[64], e[64];
    for (size_t i = 0; i < 7 * E; i++) { unsigned char c = vh_u8(); b[i] = c; e[i] = c; }
    use(vt_span_from_to(b, F, T, E), b, e, F, T - F, E); REACH("range");
}
void H_whole(void) {
    size_t E = vh_split(0), T = vh_split(1); static unsigned char b[64], e[64];
    for (size_t i = 0; i < 7 * E; i++) { unsigned char c = vh_u8(); b[i] = c; e[i] = c; }
    use(vt_span_from(b, T, E), b, e, 0, T, E); REACH("whole");
}
void H_array(void) {
    size_t E = vh_split(0), L = vh_split(1); unsigned char old[VB + 16]; vt_vec_t *v = vh_vec(L, L + 1, E, old); void *p = v->ptr;
    CHECK(vt_array_head(v) == p && vt_array_len(v) == L && vt_array_capacity(v) == L + 1 && vt_array_has_space(v) == 1 && vt_array_elsize(v) == E && !vt_array_has_alloctr(v), "queries");
    size_t at = vh_range(0, 7); ASSUME(at < L); unsigned char x[8];
    CHECK(vt_array_get(v, at) == (char *)p + at * E, "element address");
    for (size_t i = 0; i < E; i++) x[i] = vh_u8();
    vt_array_set(v, x, at); for (size_t i = 0; i < E; i++) old[at * E + i] = x[i];
    vh_vec_is(v, old, L, E); CHECK(v->ptr == p, "no reallocation"); REACH("array");
}
