/* vector / pointer-list harness helpers: element size, length and capacity are fixed per solver run */
#ifndef HV_H
#define HV_H
#include "vh.h"
#include "vita/container/vec.h"
#include "vita/container/plist.h"
#include "vita/container/span.h"
#ifndef VB
#define VB 40     /* bytes of the largest pre-state vector */
#endif
static vt_vec_t *vh_vec(size_t len, size_t cap, size_t es, unsigned char *old) {
    vt_vec_t *v = vt_vec_create(cap, es, NULL);
    v->len = len;
    unsigned char *p = v->ptr;
    for (size_t i = 0; i < cap * es; i++) { unsigned char c = vh_u8(); p[i] = c; old[i] = c; }
    return v;
}
/* v is well formed and holds exactly the n elements in exp */
static void vh_vec_is(const vt_vec_t *v, const unsigned char *exp, size_t n, size_t es) {
    CHECK(v->len == n && vt_vec_len(v) == n, "length");
    CHECK(vt_vec_capacity(v) >= n && vt_vec_has_space(v) == vt_vec_capacity(v) - n, "length exceeds capacity");
    CHECK(vt_vec_is_empty(v) == (n == 0), "emptiness");
    CHECK(v->elsize == es && !v->is_view, "kind of the vector");
    CHECK(vh_block_size(v->ptr) >= vt_vec_capacity(v) * es, "capacity exceeds the allocated buffer");
    const unsigned char *q = v->ptr;
    int ok = 1;
    for (size_t i = 0; i < n * es; i++) ok = ok & (q[i] == exp[i]);
    CHECK(ok, "elements");
    if (n) CHECK(vt_vec_get(v, n - 1) == q + (n - 1) * es, "element address");
}
static void *vh_ptrs[8]; static char vh_objs[8];
static vt_plist_t *vh_plist(size_t len, size_t cap, void **old) {
    vt_plist_t *p = vt_plist_create(cap, NULL);
    p->len = len;
    for (size_t i = 0; i < len; i++) { size_t k = vh_range(0, 7); void *x = &vh_objs[k]; p->ptr2[i] = x; old[i] = x; }
    return p;
}
static void vh_plist_is(const vt_plist_t *p, void **exp, size_t n) {
    CHECK(p->len == n && vt_plist_len(p) == n, "length");
    CHECK(vt_plist_capacity(p) >= n && vt_plist_has_space(p) == vt_plist_capacity(p) - n, "length exceeds capacity");
    CHECK(vt_plist_is_empty(p) == (n == 0), "emptiness");
    CHECK(p->elsize == sizeof(void *) && !p->is_view, "kind of the list");
    CHECK(vh_block_size(p->ptr2) >= vt_plist_capacity(p) * sizeof(void *), "capacity exceeds the allocated buffer");
    int ok = 1;
    for (size_t i = 0; i < n; i++) ok = ok & (p->ptr2[i] == exp[i]);
    CHECK(ok, "elements");
    if (n) CHECK(vt_plist_get(p, n - 1) == exp[n - 1], "last element");
}
#endif
