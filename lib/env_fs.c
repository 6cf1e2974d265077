/* files, directories, streams: an in-memory file system (vh_fs.h), used by the solver and by replays alike */
#include "vh_fs.h"
#include <stdio.h>
#include <stdarg.h>
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
struct vh_node vh_node[VH_NODES]; int vh_fs_on, vh_calls, vh_fail_at = -1, vh_streams, vh_dirs, vh_fopen_fail, vh_std_closed, vh_unbuffered, vh_err = -1, vh_cwd_fail;
size_t vh_space = (size_t)-1, vh_short, vh_exe_len; const char *vh_home, *vh_cwd, *vh_exe;
#ifdef VH_NATIVE
#define W(t, n, par, args) t __real_##n par; t __wrap_##n par { if (!vh_fs_on) return __real_##n args;
#define BOUND(c) ASSUME(c)
#else
#define W(t, n, par, args) t n par {
#define BOUND(c) __CPROVER_assert(c, "BOUND: file system model"), __CPROVER_assume(c)
#endif
#define E (-1)
static int is_name(const char *a, const char *c, size_t k) {
    if (k >= VH_NAME) return 0;
    int eq = 1; for (size_t i = 0; i < VH_NAME - 1; i++) if (i < k) eq &= a[i] == c[i];
    return eq & (a[k] == 0);
}
static int child(int d, const char *c, size_t k) {
    for (int i = 2; i < VH_NODES; i++) if (vh_node[i].kind != VH_NONE && vh_node[i].parent == d && is_name(vh_node[i].name, c, k)) return i;
    return E;
}
int vh_find(int d, const char *name) { size_t k = 0; while (name[k]) k++; return child(d, name, k); }
static int put(int parent, const char *c, size_t k, int kind) {
    for (int i = 2; i < VH_NODES; i++) if (vh_node[i].kind == VH_NONE) {
        BOUND(k < VH_NAME); vh_node[i].kind = kind; vh_node[i].parent = parent; vh_node[i].n = 0; vh_node[i].target = E;
        for (size_t j = 0; j < VH_NAME - 1; j++) vh_node[i].name[j] = j < k ? c[j] : 0;
        vh_node[i].name[VH_NAME - 1] = 0; return i;
    }
    BOUND(0); return E;
}
int vh_mk(int parent, const char *name, int kind) { size_t k = 0; while (name[k]) k++; return put(parent, name, k, kind); }
static int follow(int x) { return x >= 0 && vh_node[x].kind == VH_LINK ? vh_node[x].target : x; }
/* the node a path names; par and c,k: directory and name of its last component if the directory exists, else par is E */
struct at { int node, par; const char *c; size_t k; };
static struct at walk(const char *z, int fol) {
    struct at r = {0, E, z, 0}; size_t i = 0; int dead = z[0] == 0, slash = 0;
    if (z[0] == '/') r.node = 1;
    for (;;) {
        slash = 0; while (z[i] == '/') { i++; slash = 1; }
        if (z[i] == 0) break;
        size_t k = 0; while (z[i + k] && z[i + k] != '/') k++;
        int d = dead ? E : follow(r.node); if (d >= 0 && vh_node[d].kind != VH_DIR) d = E;
        r.c = z + i; r.k = k; r.par = E;
        if (d < 0) dead = 1, r.node = E;
        else if (k == 1 && z[i] == '.') r.node = d;
        else if (k == 2 && z[i] == '.' && z[i + 1] == '.') r.node = d < 2 ? d : vh_node[d].parent;
        else { r.par = d; r.node = child(d, r.c, k); }
        i += k;
    }
    if (dead) r.node = E;
    if (fol || (slash && r.k)) r.node = follow(r.node);
    if (slash && r.node >= 0 && vh_node[r.node].kind != VH_DIR) r.node = E;
    return r;
}
static int empty(int d) { for (int i = 2; i < VH_NODES; i++) if (vh_node[i].kind != VH_NONE && vh_node[i].parent == d) return 0; return 1; }
static int refused(void) { return vh_calls++ == vh_fail_at; }
static int info(int x, struct stat *s) {
    if (x < 0) { errno = ENOENT; return -1; }
    s->st_mode = vh_node[x].kind == VH_DIR ? S_IFDIR | 0755 : vh_node[x].kind == VH_LINK ? S_IFLNK | 0777 : S_IFREG | 0644; s->st_size = vh_node[x].kind == VH_DIR ? VH_DATA : (off_t)vh_node[x].n; s->st_nlink = 1; return 0;
}
W(int, stat, (const char *z, struct stat *s), (z, s)) return info(walk(z, 1).node, s); }
W(int, lstat, (const char *z, struct stat *s), (z, s)) return info(walk(z, 0).node, s); }
W(int, access, (const char *z, int m), (z, m)) return walk(z, 1).node < 0 ? -1 : 0; }
W(int, mkdir, (const char *z, mode_t m), (z, m))
    struct at a = walk(z, 0); if (refused()) { errno = EACCES; return -1; }
    if (a.node >= 0) { errno = EEXIST; return -1; }
    if (a.par < 0) { errno = ENOENT; return -1; }
    put(a.par, a.c, a.k, VH_DIR); return 0;
}
static int rm_dir(struct at a) {
    if (a.node < 0 || vh_node[a.node].kind != VH_DIR) { errno = ENOTDIR; return -1; }
    if (a.node < 2 || a.par < 0 || !empty(a.node)) { errno = ENOTEMPTY; return -1; }
    vh_node[a.node].kind = VH_NONE; return 0;
}
static int rm_file(struct at a) {
    if (a.node < 0 || vh_node[a.node].kind == VH_DIR) { errno = ENOENT; return -1; }
    vh_node[a.node].kind = VH_NONE; return 0;
}
W(int, rmdir, (const char *z), (z)) if (refused()) { errno = EACCES; return -1; } return rm_dir(walk(z, 0)); }
W(int, unlink, (const char *z), (z)) if (refused()) { errno = EACCES; return -1; } return rm_file(walk(z, 0)); }
W(int, remove, (const char *z), (z))
    struct at a = walk(z, 0); if (refused()) { errno = EACCES; return -1; }
    return a.node >= 0 && vh_node[a.node].kind == VH_DIR ? rm_dir(a) : rm_file(a);
}
W(int, rename, (const char *z, const char *y), (z, y))
    struct at a = walk(z, 0), b = walk(y, 0); if (refused()) { errno = EACCES; return -1; }
    if (a.node < 2 || a.par < 0 || b.par < 0) { errno = ENOENT; return -1; }
    if (a.node == b.node) return 0;
    for (int p = b.par, i = 0; i < VH_NODES && p >= 2; i++) { if (p == a.node) { errno = EINVAL; return -1; } p = vh_node[p].parent; }
    if (b.node >= 0) {
        if ((vh_node[a.node].kind == VH_DIR) != (vh_node[b.node].kind == VH_DIR) || (vh_node[b.node].kind == VH_DIR && !empty(b.node))) { errno = ENOTEMPTY; return -1; }
        vh_node[b.node].kind = VH_NONE;
    }
    BOUND(b.k < VH_NAME); vh_node[a.node].parent = b.par; for (size_t j = 0; j < VH_NAME; j++) vh_node[a.node].name[j] = j < b.k ? b.c[j] : 0;
    return 0;
}
/* directories: ".", "..", then the entries */
struct vh_dir { int node, pos, open; }; static struct vh_dir dirs[4]; static struct dirent ent;
W(DIR *, opendir, (const char *z), (z))
    int x = walk(z, 1).node; if (x < 0 || vh_node[x].kind != VH_DIR) { errno = ENOENT; return NULL; }
    for (int i = 0; i < 4; i++) if (!dirs[i].open) { dirs[i].open = 1; dirs[i].node = x; dirs[i].pos = 0; vh_dirs++; return (DIR *)&dirs[i]; }
    BOUND(0); return NULL;
}
W(struct dirent *, readdir, (DIR *dp), (dp))
    struct vh_dir *d = (struct vh_dir *)dp; CHECK(d->open, "use of a closed directory");
    if (d->pos < 2) { ent.d_name[0] = '.'; ent.d_name[1] = d->pos == 1 ? '.' : 0; ent.d_name[2] = 0; ent.d_type = DT_DIR; d->pos++; return &ent; }
    for (int i = 2; i < VH_NODES; i++) if (d->pos <= i && vh_node[i].kind != VH_NONE && vh_node[i].parent == d->node) {
        for (size_t j = 0; j < VH_NAME; j++) ent.d_name[j] = vh_node[i].name[j];
        ent.d_type = vh_node[i].kind == VH_DIR ? DT_DIR : vh_node[i].kind == VH_LINK ? DT_LNK : DT_REG; d->pos = i + 1; return &ent;
    }
    d->pos = VH_NODES; return NULL;
}
W(int, closedir, (DIR *dp), (dp)) struct vh_dir *d = (struct vh_dir *)dp; CHECK(d->open, "directory closed twice"); d->open = 0; vh_dirs--; return 0; }
W(char *, getenv, (const char *n), (n)) if (n[0] == 'H' && n[1] == 'O' && n[2] == 'M' && n[3] == 'E' && n[4] == 0) return (char *)vh_home; return NULL; }
W(char *, getcwd, (char *b, size_t n), (b, n))
    if (vh_cwd_fail) { errno = ENOENT; return NULL; }
    size_t k = 0; while (vh_cwd[k]) k++;
    if (b == NULL) { b = malloc(n ? n : k + 1); if (b == NULL) return NULL; } 
    if (n && n < k + 1) { errno = ERANGE; return NULL; }
    for (size_t i = 0; i <= k; i++) b[i] = vh_cwd[i]; return b;
}
W(ssize_t, readlink, (const char *z, char *b, size_t n), (z, b, n))
    if (vh_exe == NULL) { errno = ENOENT; return -1; }
    size_t k = vh_exe_len < n ? vh_exe_len : n; for (size_t i = 0; i < k; i++) b[i] = vh_exe[i]; return (ssize_t)k;
}
/* streams */
struct vh_stream { int node, open, err, eof, rd, app, std; size_t pos, lost; }; static struct vh_stream st[4], std0[2] = {{.open = 1, .std = 1}, {.open = 1, .std = 1}};
static size_t emit(struct vh_stream *s, const char *b, size_t n) {
    int x = s->std ? vh_err : s->node; if (x < 0) return n;
    if (s->app || s->std) s->pos = vh_node[x].n;
    size_t k = n < vh_space ? n : vh_space; vh_space -= k;
    BOUND(s->pos + k <= VH_DATA); for (size_t i = 0; i < k; i++) vh_node[x].data[s->pos + i] = b[i];
    s->pos += k; if (s->pos > vh_node[x].n) vh_node[x].n = s->pos; return k;
}
static size_t take(struct vh_stream *s, char *b, size_t n) {
    if (vh_node[s->node].kind != VH_FILE) { s->err = 1; errno = EISDIR; return 0; }
    size_t end = vh_node[s->node].n > vh_short ? vh_node[s->node].n - vh_short : 0, k = s->pos >= end ? 0 : end - s->pos; if (k > n) k = n;
    for (size_t i = 0; i < k; i++) b[i] = vh_node[s->node].data[s->pos + i];
    s->pos += k; return k;
}
static struct vh_stream *start(const char *z, const char *m) {
    struct at a = walk(z, 1); int x = a.node;
    if (vh_fopen_fail) { errno = EACCES; return NULL; }
    if (m[0] == 'r') { if (x < 0) { errno = ENOENT; return NULL; } }
    else {
        if (x < 0) { if (a.par < 0) { errno = ENOENT; return NULL; } x = put(a.par, a.c, a.k, VH_FILE); }
        if (vh_node[x].kind != VH_FILE) { errno = EISDIR; return NULL; }
        if (m[0] == 'w') vh_node[x].n = 0;
    }
    for (int i = 0; i < 4; i++) if (!st[i].open) { st[i] = (struct vh_stream){.node = x, .open = 1, .rd = m[0] == 'r', .app = m[0] == 'a'}; vh_streams++; return &st[i]; }
    BOUND(0); return NULL;
}
#ifdef VH_NATIVE
static ssize_t c_read(void *c, char *b, size_t n) { struct vh_stream *s = c; size_t k = take(s, b, n); return s->err ? -1 : (ssize_t)k; }
static ssize_t c_write(void *c, const char *b, size_t n) { size_t k = emit(c, b, n); return k < n ? 0 : (ssize_t)n; }
static int c_seek(void *c, off64_t *o, int w) { struct vh_stream *s = c; if (s->std) return -1; s->pos = (size_t)(w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t)s->pos + *o : (off64_t)vh_node[s->node].n + *o); *o = (off64_t)s->pos; return 0; }
static int c_close(void *c) { struct vh_stream *s = c; if (s->std) { vh_std_closed = 1; return 0; } s->open = 0; vh_streams--; return 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *z, const char *m) {
    if (!vh_fs_on) return __real_fopen(z, m);
    struct vh_stream *s = start(z, m); if (s == NULL) return NULL;
    FILE *f = fopencookie(s, m, (cookie_io_functions_t){c_read, c_write, c_seek, c_close}); if (vh_unbuffered) setvbuf(f, NULL, _IONBF, 0); return f;
}
void vh_fs_init(void) {
    vh_fs_on = 1; vh_node[0].kind = vh_node[1].kind = VH_DIR; vh_node[0].parent = 1; vh_node[1].parent = 1;
    stderr = fopencookie(&std0[0], "w", (cookie_io_functions_t){c_read, c_write, c_seek, c_close}); setvbuf(stderr, NULL, _IONBF, 0);
}
#else
struct _IO_FILE *stderr = (struct _IO_FILE *)&std0[0], *stdout = (struct _IO_FILE *)&std0[1];
void vh_fs_init(void) { vh_fs_on = 1; vh_node[0].kind = vh_node[1].kind = VH_DIR; vh_node[0].parent = 1; vh_node[1].parent = 1; }
FILE *fopen(const char *z, const char *m) { return (FILE *)start(z, m); }
static struct vh_stream *use(FILE *f) { __CPROVER_assert(f != NULL, "CHECK: null stream"); struct vh_stream *s = (struct vh_stream *)f; __CPROVER_assert(s->open, "CHECK: use of a closed stream"); __CPROVER_assume(s->open); return s; }
static size_t w(FILE *f, const char *b, size_t n) {
    struct vh_stream *s = use(f); if (s->std == 1 && s == &std0[1]) return n;
    if (!s->std && s->rd) { s->err = 1; return 0; }
    size_t k = emit(s, b, n); if (k < n) { if (vh_unbuffered || s->std) { s->err = 1; return k; } s->lost += n - k; }
    return n;
}
int fclose(FILE *f) {
    struct vh_stream *s = use(f); if (s->std) { vh_std_closed = 1; s->open = 0; return 0; }
    s->open = 0; vh_streams--; return s->lost ? EOF : 0;
}
int fflush(FILE *f) { if (f == NULL) return 0; struct vh_stream *s = use(f); if (s->lost) { s->lost = 0; s->err = 1; return EOF; } return 0; }
size_t fread(void *b, size_t sz, size_t n, FILE *f) { struct vh_stream *s = use(f); if (sz == 0) return 0; size_t k = take(s, b, sz * n); if (k < sz * n) s->eof = 1; return sz == 1 ? k : k / sz; }
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) { if (sz == 0) return 0; size_t k = w(f, b, sz * n); return sz == 1 ? k : k / sz; }
int fgetc(FILE *f) { char c; struct vh_stream *s = use(f); if (take(s, &c, 1) == 0) { s->eof = 1; return EOF; } return (unsigned char)c; }
int getc(FILE *f) { return fgetc(f); }
int fputc(int c, FILE *f) { char x = (char)c; return w(f, &x, 1) == 1 ? (unsigned char)x : EOF; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *z, FILE *f) { size_t n = 0; while (z[n]) n++; return w(f, z, n) == n ? 1 : EOF; }
int ferror(FILE *f) { return use(f)->err; }
int feof(FILE *f) { return use(f)->eof; }
int fseek(FILE *f, long o, int wh) { struct vh_stream *s = use(f); s->pos = (size_t)(wh == SEEK_SET ? o : wh == SEEK_CUR ? (long)s->pos + o : (long)vh_node[s->node].n + o); return 0; }
long ftell(FILE *f) { return (long)use(f)->pos; }
void rewind(FILE *f) { use(f)->pos = 0; }
#ifndef VH_TMP
#define VH_TMP 64
#endif
static char tmp[VH_TMP];
static int vout(FILE *f, const char *fmt, va_list a) {
    if (!vh_fs_on) return 0;
    int n = vsnprintf(tmp, VH_TMP, fmt, a); if (n < 0) return n;
    BOUND(n < VH_TMP); return w(f, tmp, (size_t)n) == (size_t)n ? n : -1;
}
int vfprintf(FILE *f, const char *fmt, va_list a) { return vout(f, fmt, a); }
int fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vout(f, fmt, a); va_end(a); return r; }
int vprintf(const char *fmt, va_list a) { return 0; }
int printf(const char *f, ...) { return 0; }
int puts(const char *f) { return 0; }
int putchar(int c) { return c; }
#endif
