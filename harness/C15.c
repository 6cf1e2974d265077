/* C15: a container takes all its memory from its allocator and gives it back there */
#include "hs.h"
#include "hv.h"
//@ H_str   unwind=40 mode=X opts="--max-field-sensitivity-array-size 1024" split="L=1:3 O=0:9 C=0:1" D="CAP=8 ZM=4 MAXCPY=48" | split="L=1:6 O=0:9 C=0:2" D="CAP=12 ZM=4 MAXCPY=48"
//@ H_vec   unwind=80 mode=X opts="--max-field-sensitivity-array-size 1024" split="L=0:2 C=1:2 O=0:6 E=1:3" where="L<=C and E!=2" D="MAXCPY=64" | split="L=0:4 C=1:4 O=0:6 E=1:8" where="L<=C" D="MAXCPY=64"
//@ H_plist unwind=80 mode=X opts="--max-field-sensitivity-array-size 1024" split="L=0:2 C=1:2 O=0:6" where="L<=C" D="MAXCPY=64" | split="L=0:5 C=1:5 O=0:6" where="L<=C" D="MAXCPY=64"
//@ H_split unwind=60 uset="strstr.0:9,strstr.1:9" mode=X opts="--max-field-sensitivity-array-size 1024" split="M=0:7 A=0:1" D="MAXCPY=64"
static vt_mallocator_t *a, *b;
/* everything o owns is accounted to m */
static void accounted(vt_mallocator_t *m, struct VitaBaseArrayType *o) {
    CHECK(o->alloctr == m && vt_array_has_alloctr(o), "the container keeps its allocator");
    CHECK(m->stats.count_bytes_allocated == vh_block_size(o) + vh_block_size(o->ptr), "all of its memory comes from the allocator");
    CHECK(m->stats.count_allocs - m->stats.count_frees == 2, "two blocks");
}
static void settled(vt_mallocator_t *m) {
    CHECK(m->stats.count_bytes_allocated == 0, "all memory went back to the allocator");
    CHECK(m->stats.count_allocs == m->stats.count_frees, "every block was freed through the allocator");
}
static void end(size_t others) {
    settled(a); if (b) settled(b);
    CHECK(vh_live() == (b ? 4 : 2) + others, "nothing outside the allocator leaks");
    vt_mallocator_destroy(a); if (b) vt_mallocator_destroy(b);
    CHECK(vh_live() == others, "nothing leaks"); REACH("done");
}
void H_str(void) {
    size_t L = vh_split(0), O = vh_split(1), C = vh_split(2); char zb[CAP + 1]; char *z = vh_zn(zb, CAP + 1, L, 1), yb[ZM + 1]; char *y = vh_zn(yb, ZM + 1, 2, 1);
    a = vt_mallocator_create(); b = NULL;
    vt_str_t *s = vt_str_create(z, a); accounted(a, s);
    if (C) { vt_str_reserve(s, C); accounted(a, s); }
    if (O == 0) { vt_str_t *d = vt_str_dup(s); CHECK(d->alloctr == a, "copies use the same allocator"); CHECK(vh_live() == 6, "copy"); vt_str_destroy(d); accounted(a, s); }
    if (O == 1) { vt_str_append(s, y); vt_str_append_n(s, y, 1); accounted(a, s); }
    if (O == 2) { vt_str_insert(s, y, 0); vt_str_insert_n(s, y, 2, 1); accounted(a, s); }
    if (O == 3) { vt_str_shrink(s); accounted(a, s); vt_str_clear(s); vt_str_shrink(s); accounted(a, s); vt_str_append(s, y); accounted(a, s); }
    if (O == 4) { vt_str_resize(s, L + 3); accounted(a, s); vt_str_resize(s, 1); accounted(a, s); }
    if (O == 5) { vh_fmt_text = y; vh_fmt_len = 2; vt_str_appendf(s, "%s", y); accounted(a, s); }
    if (O == 6) { vh_fmt_text = y; vh_fmt_len = 2; vt_str_insertf(s, 0, "%s", y); accounted(a, s); }
    if (O == 7) { vt_str_destroy(s); s = vt_str_create_capacity(L, a); accounted(a, s); vt_str_append(s, z); accounted(a, s); }
    if (O == 8) { char *q = VT_ALLOCATOR_ALLOC(a, 3); q[0] = q[1] = 'x'; vt_str_destroy(s); s = vt_str_take_ownership(q, a); accounted(a, s); vt_str_append(s, y); accounted(a, s); }
    if (O == 9) { vt_str_set(s, z); vt_str_remove(s, 0, 1); accounted(a, s); vt_str_to_uppercase(s); accounted(a, s); }
    vt_str_destroy(s); end(0);
}
void H_vec(void) {
    size_t L = vh_split(0), C = vh_split(1), O = vh_split(2), E = vh_split(3); unsigned char x[8];
    for (size_t i = 0; i < E; i++) x[i] = vh_u8();
    a = vt_mallocator_create(); b = NULL;
    vt_vec_t *v = vt_vec_create(C, E, a); accounted(a, v);
    for (size_t i = 0; i < L; i++) vt_vec_push_back(v, x);
    if (O == 0) { vt_vec_push_back(v, x); vt_vec_push_back(v, x); accounted(a, v); }
    if (O == 1) { vt_vec_push_front(v, x); vt_vec_insert(v, x, 0); accounted(a, v); }
    if (O == 2) { vt_vec_shrink(v); accounted(a, v); vt_vec_reserve(v, 2); accounted(a, v); }
    if (O == 3) { vt_vec_resize(v, C + 2); accounted(a, v); vt_vec_resize(v, 1); accounted(a, v); }
    if (O == 4) { b = vt_mallocator_create(); vt_vec_t *d = vt_vec_dup(v, b); accounted(b, d); accounted(a, v); vt_vec_push_back(d, x); accounted(b, d); vt_vec_destroy(d); accounted(a, v); }
    if (O == 5) { vt_vec_t *d = vt_vec_dup(v, NULL); CHECK(d->alloctr == NULL, "no allocator"); accounted(a, v); vt_vec_destroy(d); accounted(a, v); }
    if (O == 6) { if (L) vt_vec_remove(v, 0, VT_REMOVE_STRATEGY_FAST); vt_vec_pop(v); vt_vec_clear(v); accounted(a, v); }
    vt_vec_destroy(v); end(0);
}
void H_plist(void) {
    size_t L = vh_split(0), C = vh_split(1), O = vh_split(2); static int x;
    a = vt_mallocator_create(); b = NULL;
    vt_plist_t *v = vt_plist_create(C, a); accounted(a, v);
    for (size_t i = 0; i < L; i++) vt_plist_push_back(v, &x);
    if (O == 0) { vt_plist_push_back(v, &x); vt_plist_push_back(v, &x); accounted(a, v); }
    if (O == 1) { vt_plist_push_front(v, &x); vt_plist_insert(v, &x, 0); accounted(a, v); }
    if (O == 2) { vt_plist_shrink(v); accounted(a, v); vt_plist_reserve(v, 2); accounted(a, v); }
    if (O == 3) { vt_plist_resize(v, C + 2); accounted(a, v); vt_plist_resize(v, 1); accounted(a, v); }
    if (O == 4) { b = vt_mallocator_create(); vt_plist_t *d = vt_plist_dup(v, b); accounted(b, d); accounted(a, v); vt_plist_push_back(d, &x); accounted(b, d); vt_plist_destroy(d); accounted(a, v); }
    if (O == 5) { vt_plist_t *d = vt_plist_dup(v, NULL); CHECK(d->alloctr == NULL, "no allocator"); accounted(a, v); vt_plist_destroy(d); accounted(a, v); }
    if (O == 6) { vt_plist_remove_element(v, &x, VT_REMOVE_STRATEGY_FAST); vt_plist_pop(v); vt_plist_clear(v); accounted(a, v); }
    vt_plist_destroy(v); end(0);
}
/* pieces of a split belong to the list's allocator (M: which of three characters are separators) */
void H_split(void) {
    size_t M = vh_split(0), A = vh_split(1); char t[4]; t[3] = 0;
    for (size_t i = 0; i < 3; i++) t[i] = M >> i & 1 ? ',' : 'a' + i;
    a = vt_mallocator_create(); b = NULL;
    vt_str_t *s = vt_str_create(t, NULL);
    vt_plist_t *l = vt_plist_create(1, A ? a : NULL);
    vt_plist_t *r = vt_str_split(l, s, ",");
    if (r) for (size_t i = 0; i < 4; i++) if (i < vt_plist_len(r)) { vt_str_t *q = vt_plist_get(r, i); CHECK(q->alloctr == (A ? a : NULL), "pieces use the list's allocator"); vt_str_destroy(q); }
    vt_plist_destroy(l); vt_str_destroy(s); end(0);
}
