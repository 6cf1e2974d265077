/* Harness API. The same harness source is (a) compiled with goto-cc and executed
   symbolically by CBMC and (b) compiled natively (VH_NATIVE) with the real libc,
   ASan and UBSan, where the nondeterministic values come from the solver's
   assignment: that is how counterexamples and reachability witnesses are replayed. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

#ifdef VH_NATIVE
uint64_t vh_next(void);
void vh_check(int c, const char *m);
void vh_assume(int c);
void vh_reach(const char *m);
static inline uint8_t vh_u8(void) { return (uint8_t)vh_next(); }
static inline uint16_t vh_u16(void) { return (uint16_t)vh_next(); }
static inline uint32_t vh_u32(void) { return (uint32_t)vh_next(); }
static inline uint64_t vh_u64(void) { return vh_next(); }
#define CHECK(c, m) vh_check(!!(c), m)
#define ASSUME(c) vh_assume(!!(c))
#define REACH(m) vh_reach(m)
#else
uint8_t nondet_u8(void); uint16_t nondet_u16(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void);
static inline uint8_t vh_u8(void) { uint8_t v = nondet_u8(); __CPROVER_input("vh", v); return v; }
static inline uint16_t vh_u16(void) { uint16_t v = nondet_u16(); __CPROVER_input("vh", v); return v; }
static inline uint32_t vh_u32(void) { uint32_t v = nondet_u32(); __CPROVER_input("vh", v); return v; }
static inline uint64_t vh_u64(void) { uint64_t v = nondet_u64(); __CPROVER_input("vh", v); return v; }
#define CHECK(c, m) do { bool vh_c = (c); __CPROVER_assert(vh_c, "CHECK: " m); __CPROVER_assume(vh_c); } while (0)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH(m) __CPROVER_assert(0, "REACH: " m)
#endif

static inline char vh_char(void) { return (char)vh_u8(); }
static inline bool vh_bool(void) { uint8_t v = vh_u8(); ASSUME(v < 2); return v == 1; }
/* arbitrary value in [lo, hi] */
static inline size_t vh_range(size_t lo, size_t hi) {
    if (hi < 256) { uint8_t v = vh_u8(); ASSUME(v >= lo && v <= hi); return v; }
    uint64_t v = vh_u64(); ASSUME(v >= lo && v <= hi); return (size_t)v;
}

/* values the driver fixes per solver run (annotation split=...); replays read them back */
#ifdef VH_NATIVE
static inline size_t vh_split(int i) { return vh_next(); }
#else
extern size_t vh_s[8];
static inline size_t vh_split(int i) { size_t v = vh_s[i]; __CPROVER_input("vh", v); return v; }
#endif

/* tells the strlen model a constant length (verified there by an assertion) */
#ifdef VH_NATIVE
static inline void vh_hint(const char *p, size_t n) { }
#else
extern const char *vh_hp[4]; extern size_t vh_hn[4]; extern int vh_nh;
static inline void vh_hint(const char *p, size_t n) { vh_hp[vh_nh] = p; vh_hn[vh_nh] = n; vh_nh++; }
#endif

/* ---- heap (symbolic: lib/model_heap.c, native: lib/native_rt.c) ---- */
size_t vh_live(void);                  /* number of live heap blocks */
size_t vh_block_size(const void *p);   /* bytes requested for the live block starting at p */
extern int vh_alloc_may_fail;          /* 1: every allocation may fail (nondeterministic) */

/* ---- termination ---- */
extern int vh_exit_ok;                 /* 0: terminating is a violation; 1: it ends the path quietly */
extern void (*vh_exit_hook)(int code); /* called at termination; code -1: abort()/assert() */

/* ---- formatting: the text vsnprintf & co. produce in the symbolic build. Natively the
   real functions run on "%s" with this text. ---- */
extern const char *vh_fmt_text; extern size_t vh_fmt_len; extern int vh_fmt_fail;
extern size_t vh_fmt_digits;           /* symbolic: digits of the next printed number, if not 0 (asserted) */
#endif
