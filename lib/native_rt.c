/* native side of vh.h: replays a solver assignment against the real build */
#define _GNU_SOURCE
#include "vh.h"
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
/* raw system calls: the libc entry points may be wrapped by the environment model */
static void quit(int c) { fflush(stdout); for (;;) syscall(SYS_exit_group, c); }
static uint64_t vals[65536]; static size_t nvals, pos;
uint64_t vh_next(void) { return pos < nvals ? vals[pos++] : (pos++, 0); }
static void put(const char *a) { size_t n = 0; while (a[n]) n++; syscall(SYS_write, 1, a, n); }
static void say(const char *a, const char *m) { put(a); put(" "); put(m); put("\n"); }
void vh_check(int c, const char *m) { if (!c) { say("VH_CHECK_FAILED", m); quit(3); } }
void vh_assume(int c) { if (!c) { say("VH_ASSUME_FAILED", ""); quit(77); } }
void vh_reach(const char *m) { say("VH_REACHED", m); }
int vh_exit_ok; void (*vh_exit_hook)(int); int vh_alloc_may_fail;
const char *vh_fmt_text = ""; size_t vh_fmt_len, vh_fmt_digits; int vh_fmt_fail;

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static struct { void *p; size_t n; } tab[8192]; static size_t nlive;
static void add(void *p, size_t n) { for (size_t i = 0; i < 8192; i++) if (!tab[i].p) { tab[i].p = p; tab[i].n = n; nlive++; return; } }
static void del(void *p) { for (size_t i = 0; i < 8192; i++) if (tab[i].p == p) { tab[i].p = 0; nlive--; return; } }
size_t vh_live(void) { return nlive; }
size_t vh_block_size(const void *p) { for (size_t i = 0; i < 8192; i++) if (tab[i].p == p) return tab[i].n; return 0; }
static int fails(void) { if (!vh_alloc_may_fail) return 0; return vh_bool(); }
void *__wrap_malloc(size_t n) { if (fails()) return 0; void *p = __real_malloc(n); add(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fails()) return 0; void *p = __real_calloc(a, b); add(p, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) { if (fails()) return 0; void *q = __real_realloc(p, n); if (q) { if (p) del(p); add(q, n); } return q; }
void __wrap_free(void *p) { if (p) del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s); char *q = __wrap_malloc(n + 1); if (q) memcpy(q, s, n + 1); return q; }
static void term(int code) {
    if (!vh_exit_ok) { say("VH_CHECK_FAILED", "unexpected termination of the process"); quit(3); }
    if (vh_exit_hook) vh_exit_hook(code);
    say("VH_TERMINATED", ""); say("VH_DONE", ""); quit(0);
}
void __wrap_exit(int c) { term(c); }
void __wrap__exit(int c) { term(c); }
void __wrap_abort(void) { term(-1); }
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *g) { term(-1); }

extern void vh_dispatch(const char *);
int main(int argc, char **argv) {
    if (argc > 1) {
        static char buf[1 << 20];
        long fd = syscall(SYS_openat, AT_FDCWD, argv[1], O_RDONLY, 0), n = 0, k;
        while ((k = syscall(SYS_read, fd, buf + n, sizeof buf - 1 - n)) > 0) n += k;
        syscall(SYS_close, fd);
        uint64_t v = 0; int in = 0;
        for (long i = 0; i <= n; i++) {
            if (i < n && buf[i] >= '0' && buf[i] <= '9') { v = v * 10 + (buf[i] - '0'); in = 1; }
            else { if (in && nvals < 65536) vals[nvals++] = v; v = 0; in = 0; }
        }
    }
    vh_dispatch(argc > 2 ? argv[2] : "");
    say("VH_DONE", "");
    quit(0);
}
