/* C12: iteration visits every element exactly once, in order */
#include "hv.h"
#include "hs.h"
//@ H_slide  unwind=40 mode=X split="K=0:2 L=0:3 B=0:1" D="VB=40 CAP=8" | split="K=0:2 L=0:6 B=0:1" D="VB=40 CAP=8"
//@ H_reset  unwind=40 mode=X split="K=0:2 L=1:3 B=0:1 M=0:L" D="VB=40 CAP=8" | split="K=0:2 L=1:6 B=0:1 M=0:L" D="VB=40 CAP=8"
//@ H_apply  unwind=40 mode=X split="K=0:2 L=0:4" D="VB=40 CAP=8" | split="K=0:2 L=0:7" D="VB=40 CAP=8"
static struct VitaBaseArrayType *v; static size_t es, kind; static unsigned char old[VB + 16]; static char sold[CAP + 1]; static void *pold[8];
static void make(size_t k, size_t L) {
    kind = k; es = k == 0 ? 1 : k == 1 ? 3 : sizeof(void *);
    v = k == 0 ? vh_str_lc(L, L + 1, sold) : k == 1 ? vh_vec(L, L + 1, 3, old) : vh_plist(L, L + 1, pold);
}
static void *fwd(void) { return kind == 0 ? (void *)vt_str_slide_front(v) : kind == 1 ? vt_vec_slide_front(v) : vt_plist_slide_front(v); }
static void *bwd(void) { return kind == 0 ? (void *)vt_str_slide_back(v) : kind == 1 ? vt_vec_slide_back(v) : vt_plist_slide_back(v); }
static void *elt(size_t i) { return kind == 2 ? pold[i] : (char *)v->ptr + i * es; }
static void pass(size_t L, size_t B) {
    for (size_t i = 0; i < L; i++) { void *q = B ? bwd() : fwd(); CHECK(q == elt(B ? L - 1 - i : i), "element in order"); }
    CHECK((B ? bwd() : fwd()) == NULL, "NULL at the end");
}
void H_slide(void) {
    size_t k = vh_split(0), L = vh_split(1), B = vh_split(2); make(k, L); void *p = v->ptr;
    pass(L, B);
    pass(L, !B);  /* the end resets the position: a second pass, either way, sees everything again */
    pass(L, B);
    CHECK(v->len == L && v->capacity == L + 1 && v->ptr == p, "container unchanged"); REACH("done");
}
void H_reset(void) {
    size_t k = vh_split(0), L = vh_split(1), B = vh_split(2), M = vh_split(3); make(k, L);
    for (size_t i = 0; i < M; i++) { if (B) bwd(); else fwd(); }
    if (k == 0) vt_str_slide_reset(v); else if (k == 1) vt_vec_slide_reset(v); else vt_plist_slide_reset(v);
    pass(L, vh_bool()); REACH("done");
}
static size_t calls, want; static int ok = 1;
static void cb(void *q, size_t i) { ok = ok & (i == calls); if (i < want) ok = ok & (q == elt(i)); calls++; }
static void cbs(char *q, size_t i) { ok = ok & (i == calls); if (i < want) ok = ok & ((void *)q == elt(i)); calls++; }
void H_apply(void) {
    size_t k = vh_split(0), L = vh_split(1); make(k, L); want = L; ok = 1; calls = 0;
    if (k == 0) vt_str_apply(v, cbs); else if (k == 1) vt_vec_apply(v, cb); else vt_plist_apply(v, cb);
    CHECK(calls == L, "one call per element"); CHECK(ok, "elements and indices in order"); REACH("done");
}
