/* Symbolic heap. Mode X (VH_X): every block is an object of exactly the requested size; used
   where sizes are constants in each solver run. Otherwise: fixed-size blocks of MAXB bytes, RIGHT-aligned (default; one byte past the
   end of a request is out of bounds) or LEFT-aligned (VH_LEFT; one byte before the start is
   out of bounds). realloc always moves; malloc'ed bytes are arbitrary; free() poisons. */
#include "vh.h"
#include "vita/container/common.h"
#ifndef MAXB
#define MAXB 16
#endif
struct vh_blk {
#ifdef VH_LEFT
    char d[MAXB]; size_t size;
#else
    size_t size; char d[MAXB];
#endif
};
static size_t vh_nlive, vh_zero;
int vh_alloc_may_fail;
size_t vh_live(void) { return vh_nlive; }

#define BASE(p) ((struct vh_blk *)((char *)(p) - __CPROVER_POINTER_OFFSET(p)))
#ifdef VH_X
#define IS_BLK(p) 0
#else
#define IS_BLK(p) (__CPROVER_OBJECT_SIZE(p) == sizeof(struct vh_blk))
#endif
#ifdef VH_LEFT
#define PTR_OF(b) ((b)->d)
#else
#define PTR_OF(b) ((b)->d + (MAXB - (b)->size))
#endif
/* constant sizes above MAXB that get an object of exactly that size */
#ifndef VH_EXACT
#define VH_EXACT
#endif

size_t vh_block_size(const void *p) {
    if (IS_BLK(p)) return BASE(p)->size;
    return __CPROVER_OBJECT_SIZE(p);
}
static void *vh_new(size_t n, int zero) {
/* the size is kept from being a sizeof expression: CBMC 6.11 mishandles union members of objects it types itself */
#define S(k) if (n == (k)) { void *r; size_t z = (k) + vh_zero; if (zero) r = __CPROVER_allocate(z, 1); else r = __CPROVER_allocate(z, 0); vh_nlive++; return r; }
    S(sizeof(struct VitaBaseArrayType))
    VH_EXACT
#undef S
#ifdef VH_X
    __CPROVER_assert(n <= 65536, "BOUND: heap block size");
    __CPROVER_assume(n <= 65536);
    void *x;
    if (zero) x = __CPROVER_allocate(n, 1); else x = __CPROVER_allocate(n, 0);
    vh_nlive++;
    return x;
#else
    __CPROVER_assert(n <= MAXB, "BOUND: heap block size");
    __CPROVER_assume(n <= MAXB);
    struct vh_blk *b;
    if (zero) b = __CPROVER_allocate(sizeof(struct vh_blk), 1);
    else b = __CPROVER_allocate(sizeof(struct vh_blk), 0);
    b->size = n;
    vh_nlive++;
    return PTR_OF(b);
#endif
}
static int vh_fails(void) { if (!vh_alloc_may_fail) return 0; return vh_bool(); }
void *malloc(size_t n) { if (vh_fails()) return 0; return vh_new(n, 0); }
void *calloc(size_t a, size_t b) {
    if (vh_fails()) return 0;
    return vh_new(a * b, 1);
}
void free(void *p) {
    if (p == 0) return;
    __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p), "HEAP: free of memory that is not on the heap");
    if (IS_BLK(p)) __CPROVER_assert((char *)p == PTR_OF(BASE(p)), "HEAP: free of a pointer that is not the start of a live block");
    else __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) == 0, "HEAP: free of a pointer that is not the start of a live block");
    vh_nlive--;
    __CPROVER_deallocate(p);
}
void *realloc(void *p, size_t n) {
    if (vh_fails()) return 0;
    if (p == 0) return vh_new(n, 0);
    __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p), "HEAP: realloc of memory that is not on the heap");
    size_t old = vh_block_size(p);
    char *q = vh_new(n, 0);
    size_t m = old < n ? old : n;
    if (m % sizeof(void *) == 0 && m >= 64) for (size_t i = 0; i < m / sizeof(void *); i++) ((void **)q)[i] = ((void **)p)[i];
    else for (size_t i = 0; i < m; i++) q[i] = ((char *)p)[i];
    free(p);
    return q;
}
char *strdup(const char *s) {
    size_t n = strlen(s);
    char *q = malloc(n + 1);
    if (q == 0) return 0;
    for (size_t i = 0; i <= n; i++) q[i] = s[i];
    return q;
}
