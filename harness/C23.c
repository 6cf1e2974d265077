/* C23: paths as text */
#include "hs.h"
#include "vh_fs.h"
#include "vita/system/path.h"
#include "vita/allocator/mallocator.h"
//@ H_pop      mode=X D="CAP=8 ZM=4" unwind=12 split="N=0:5" | split="N=0:9"
//@ H_validate mode=X D="CAP=8 ZM=4" unwind=12 split="N=0:5" | split="N=0:9"
//@ H_base     mode=X D="CAP=8 ZM=4" unwind=12 split="N=1:4 G=0:2 F=0:N" where="N in (1,2,4)" | split="N=1:7 G=0:2 F=0:N" where="N>0"
//@ H_build    mode=X D="CAP=8 ZM=4" unwind=24 split="K=1:3 A=1:2 B=1:2 G=0:2"
//@ H_tilda    mode=X D="CAP=8 ZM=4" unwind=12 split="N=1:4 H=0:3 A=0:1 T=0:1 S=0:1" where="S==1 or H==1"
//@ H_cwd      mode=X D="CAP=8 ZM=4" unwind=12 split="N=0:4 A=0:1"
//@ H_exe      mode=X D="CAP=8 ZM=4 MAXCPY=4100" unwind=4100 split="N=0:4" where="N in (0,1,2)" opts="--max-field-sensitivity-array-size 8192" | where="N<5"
static char *zx(size_t n) { char *z = malloc(n + 1); for (size_t i = 0; i < n; i++) { z[i] = vh_char(); ASSUME(z[i] != 0); } z[n] = 0; vh_hint(z, n); return z; }
void H_pop(void) {
    size_t N = vh_split(0); char *z = zx(N), o[12]; for (size_t i = 0; i <= N; i++) o[i] = z[i];
    size_t last = N; for (size_t i = 0; i < N; i++) if (z[i] == '/') last = i;   /* the last separator, also when it is the last character */
    vt_path_pop(z); int ok = 1; for (size_t i = 0; i < N; i++) ok &= (i >= last) | (z[i] == o[i]);
    CHECK(ok && z[last] == 0, "cut at the last separator"); if (last == N) REACH("no separator"); if (N > 0 && last == N - 1) REACH("at the end"); free(z);
}
void H_validate(void) {
    size_t N = vh_split(0); char *z = zx(N), o[12]; for (size_t i = 0; i <= N; i++) o[i] = z[i];
    vt_path_validate(z); int ok = z[N] == 0; for (size_t i = 0; i < N; i++) ok &= z[i] == (o[i] == '\\' ? '/' : o[i]);
    CHECK(ok, "backslashes become separators, nothing else changes"); REACH("done"); free(z);
}
/* G: 0 result allocated, 1 into an existing string, 2 the string whose text the path is */
void H_base(void) {
    size_t N = vh_split(0), g = vh_split(1), F = vh_split(2), from = 0; char *z = NULL, o[12]; vt_str_t *s = NULL;
    if (g == 2) { s = vh_str_lc(N, N, o); z = s->ptr; vh_hint(z, N); } else { z = zx(N); for (size_t i = 0; i <= N; i++) o[i] = z[i]; }
    if (g == 1) s = vt_str_create("xy", NULL);
    int sep = 0; for (size_t i = 0; i < N; i++) if (o[i] == '/') { sep = 1; if (i + 1 < N) from = i + 1; }
    ASSUME((sep ? from : N) == F); from = F; if (F < N) vh_hint(z + from, N - from);
    vt_str_t *r = vt_path_basename(s, z);
    if (F == N) {
        CHECK(r == s, "no separator: nothing to do"); if (g == 1) vh_str_is(r, "xy", 2, 2); if (g == 2) vh_str_is(r, o, N, N); REACH("no separator"); return;
    }
    CHECK(r != NULL && (s == NULL || r == s), "result"); char e[12]; for (size_t i = 0; i < N; i++) e[i] = from + i < N ? o[from + i] : 0;
    vh_str_is(r, e, N - from, N); REACH("separator");
    if (g != 2) { int ok = 1; for (size_t i = 0; i <= N; i++) ok &= z[i] == o[i]; CHECK(ok, "path unchanged"); }
}
/* G: 0 list, 1 variadic, 2 variadic onto an existing string */
void H_build(void) {
    size_t k = vh_split(0), l[3] = {vh_split(1), vh_split(2), vh_split(1)}, g = vh_split(3), n = 0; char b[3][CAP + 1], e[32], *q[3]; vt_str_t *s = NULL, *r;
    for (int i = 0; i < 3; i++) q[i] = vh_zn(b[i], CAP + 1, l[i], 1);
    if (g == 2) { s = vt_str_create("xy", NULL); e[n++] = 'x'; e[n++] = 'y'; }
    for (size_t i = 0; i < k; i++) { if (i) e[n++] = '/'; for (size_t j = 0; j < l[i]; j++) e[n++] = q[i][j]; }
    if (g == 0) { vt_plist_t *p = vt_plist_create(3, NULL); for (size_t i = 0; i < k; i++) vt_plist_push_back(p, q[i]); r = vt_path_build(NULL, p); vt_plist_destroy(p); }
    else r = k == 1 ? vt_path_build_n(s, 1, q[0]) : k == 2 ? vt_path_build_n(s, 2, q[0], q[1]) : vt_path_build_n(s, 3, q[0], q[1], q[2]);
    CHECK(r != NULL && (s == NULL || r == s), "result"); vh_str_is(r, e, n, 20); vt_str_destroy(r); CHECK(vh_live() == 0, "blocks"); REACH("done");
}
void H_tilda(void) {
    size_t N = vh_split(0), H = vh_split(1), n = 0; vt_mallocator_t *a = vh_split(2) ? vt_mallocator_create() : NULL; vh_fs_init(); char *z = zx(N), *h = zx(H), e[12]; size_t T = vh_split(3), set = vh_split(4); if (T) { ASSUME(z[0] == '~'); z[0] = '~'; } else ASSUME(z[0] != '~'); vh_home = set ? h : NULL;
    int x = T && set; if (x) { for (size_t i = 0; i < H; i++) e[n++] = h[i]; for (size_t i = 1; i < N; i++) e[n++] = z[i]; } else for (size_t i = 0; i < N; i++) e[n++] = z[i];
    vt_str_t *r = vt_path_expand_tilda(z, a); CHECK(r != NULL, "result"); vh_str_is(r, e, n, 8); CHECK((void *)r->alloctr == (void *)a, "allocator"); if (x) REACH("expanded"); else REACH("kept");
}
void H_cwd(void) {
    size_t N = vh_split(0); vt_mallocator_t *a = vh_split(1) ? vt_mallocator_create() : NULL; vh_fs_init(); vh_cwd = zx(N); vh_cwd_fail = N == 0;
    vt_str_t *r = vt_path_get_cwd(a); if (N == 0) { CHECK(r == NULL, "no current directory"); REACH("done"); return; }
    CHECK(r != NULL, "result"); vh_str_is(r, vh_cwd, N, N); vt_str_destroy(r); REACH("done");
}
void H_exe(void) {
    size_t N = vh_split(0); vh_fs_init(); size_t n = N == 3 ? 4095 : N == 4 ? 4096 : N; char *z = malloc(4096); for (int i = 0; i < 3; i++) z[i] = vh_char(); vh_exe = N ? z : NULL; vh_exe_len = n;
    vt_str_t *r = vt_path_get_this_exe_location(NULL); if (N == 0) { CHECK(r == NULL, "no path"); REACH("done"); return; }
    CHECK(r != NULL && r->len == n && r->capacity >= n && vh_block_size(r->ptr) > n && ((char *)r->ptr)[n] == 0 && ((char *)r->ptr)[0] == z[0] && (n < 2 || ((char *)r->ptr)[1] == z[1]), "path of the executable");
    REACH("done");
}
