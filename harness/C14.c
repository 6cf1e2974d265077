/* C14: the tracking allocator */
#include "vh.h"
#include "vita/allocator/mallocator.h"
//@ H_seq  unwind=20 mode=X D="NOPS=4" opts="--max-field-sensitivity-array-size 1024" split="Z=0:3 A=0:0 B=0:4 C=0:4 D=0:4" | D="NOPS=5" split="Z=0:7 A=0:0 B=0:4 C=0:4 D=0:4 E=0:4"
//@ H_many unwind=60 uset="realloc.0:200,realloc.1:200" mode=X opts="--max-field-sensitivity-array-size 1024" split="N=15:33 I=0:32 O=0:2" where="N in (15,16,17,33) and I<N and I in (0,15,16,32)" | split="N=1:34 I=0:33 O=0:2" where="I<N and (I in (0,1,N-1,N-2,N//2))"
//@ H_foreign unwind=20 mode=X opts="--max-field-sensitivity-array-size 1024" split="N=0:3"
#ifndef NOPS
#define NOPS 4
#endif
static vt_mallocator_t *a; static unsigned char *p[8]; static size_t sz[8], n; static unsigned char tag[8];
static struct VitaAllocatorStats st;
static void agree(void) {
    CHECK(a->stats.count_allocs == st.count_allocs, "number of allocations");
    CHECK(a->stats.count_reallocs == st.count_reallocs, "number of reallocations");
    CHECK(a->stats.count_frees == st.count_frees, "number of frees");
    CHECK(a->stats.count_bytes_allocated == st.count_bytes_allocated, "bytes currently allocated");
    CHECK(a->stats.count_bytes_freed == st.count_bytes_freed, "bytes freed");
    CHECK(vh_live() == 2 + n, "live blocks");
}
static void fill(size_t k) { unsigned char c = vh_u8(); tag[k] = c; for (size_t i = 0; i < 8; i++) if (i < sz[k]) p[k][i] = c; }
static void intact(size_t k, size_t m) { int ok = 1; for (size_t i = 0; i < 8; i++) if (i < m) ok = ok & (p[k][i] == tag[k]); CHECK(ok, "contents kept"); CHECK(vh_block_size(p[k]) >= sz[k], "size of the block"); }
static void del(size_t k) { for (size_t i = k; i + 1 < n; i++) { p[i] = p[i + 1]; sz[i] = sz[i + 1]; tag[i] = tag[i + 1]; } n--; }
static const size_t sizes[8][5] = {{3, 5, 1, 4, 2}, {1, 1, 1, 1, 1}, {8, 2, 7, 2, 8}, {2, 8, 8, 1, 3}, {1, 2, 4, 8, 4}, {4, 4, 2, 6, 6}, {5, 1, 8, 3, 7}, {7, 8, 6, 5, 1}};
static void step(size_t op, size_t m) {
    size_t k = op == 2 || op == 4 ? n - 1 : 0;
    if (op == 0) {
        p[n] = VT_ALLOCATOR_ALLOC(a, m); sz[n] = m; int z = 1;
        for (size_t i = 0; i < 8; i++) if (i < m) z = z & (p[n][i] == 0);
        CHECK(z, "new memory is zeroed"); fill(n); n++; st.count_allocs++; st.count_bytes_allocated += m;
    } else if (n == 0) return;
    else if (op < 3) {
        size_t o = sz[k]; p[k] = VT_ALLOCATOR_REALLOC(a, p[k], m); sz[k] = m; intact(k, o < m ? o : m); fill(k);
        st.count_reallocs++; st.count_bytes_allocated += m - o; if (m < o) st.count_bytes_freed += o - m;
    } else {
        VT_ALLOCATOR_FREE(a, p[k]); st.count_frees++; st.count_bytes_freed += sz[k]; st.count_bytes_allocated -= sz[k]; del(k);
    }
    agree();
    for (size_t i = 0; i < 4; i++) if (i < n) intact(i, sz[i]);
}
static void start(void) { a = vt_mallocator_create(); n = 0; st = (struct VitaAllocatorStats){0}; agree(); }
static void finish(void) { vt_mallocator_destroy(a); CHECK(vh_live() == 0, "destroying the allocator releases everything"); REACH("done"); }
void H_seq(void) {
    start();
    size_t Z = vh_split(0);
    for (int i = 0; i < NOPS; i++) { size_t op = vh_split(i + 1); step(op, sizes[Z][i]); }
    finish();
}
/* N live objects (the object table grows at 16 and 32), then one operation on object I */
void H_many(void) {
    static unsigned char *q[40];
    size_t N = vh_split(0), I = vh_split(1), O = vh_split(2);
    start();
    for (size_t i = 0; i < N; i++) { q[i] = VT_ALLOCATOR_ALLOC(a, 1); unsigned char c = vh_u8(); *q[i] = c; ASSUME(c == (unsigned char)(i * 7 + 1)); }
    CHECK(a->stats.count_allocs == N && a->stats.count_bytes_allocated == N && vh_live() == 2 + N, "accounting");
    size_t live = N;
    if (O == 1) { VT_ALLOCATOR_FREE(a, q[I]); live--; CHECK(a->stats.count_frees == 1 && a->stats.count_bytes_freed == 1, "free accounted"); }
    if (O == 2) { q[I] = VT_ALLOCATOR_REALLOC(a, q[I], 3); CHECK(q[I][0] == (unsigned char)(I * 7 + 1), "contents kept"); CHECK(a->stats.count_reallocs == 1 && a->stats.count_bytes_allocated == N + 2, "realloc accounted"); }
    int ok = 1; for (size_t i = 0; i < N; i++) if (!(O == 1 && i == I)) ok = ok & (*q[i] == (unsigned char)(i * 7 + 1));
    CHECK(ok, "other objects intact"); CHECK(vh_live() == 2 + live, "live blocks");
    void *x = VT_ALLOCATOR_ALLOC(a, 2); VT_ALLOCATOR_FREE(a, x); CHECK(vh_live() == 2 + live && a->stats.count_bytes_allocated == live + (O == 2 ? 2 : 0), "still works");
    finish();
}
void H_foreign(void) {
    size_t N = vh_split(0); start();
    for (size_t i = 0; i < N; i++) { p[i] = VT_ALLOCATOR_ALLOC(a, i + 1); sz[i] = i + 1; fill(i); st.count_allocs++; st.count_bytes_allocated += i + 1; n++; }
    void *x = malloc(5); CHECK(x != NULL, "setup");
    VT_ALLOCATOR_FREE(a, x);  /* not one of its objects: released, not accounted */
    agree(); for (size_t i = 0; i < N; i++) intact(i, sz[i]);
    finish();
}
