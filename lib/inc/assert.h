/* replaces <assert.h> in the symbolic build: a failed assert() terminates the
   program, which the harness may expect (fail-stop checks) or not. */
#undef assert
extern void vh_assert_fail(void);
#define assert(e) ((e) ? (void)0 : vh_assert_fail())
#ifndef static_assert
#define static_assert _Static_assert
#endif
