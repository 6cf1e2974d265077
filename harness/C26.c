/* C26: files */
#include "hs.h"
#include "vh_fs.h"
#include "vita/system/fileio.h"
#include "vita/allocator/mallocator.h"
//@ H_read  mode=X D="CAP=8 ZM=4" unwind=12 split="B=0:1 N=0:4 K=0:4 A=0:1" where="(K in (1,3) or N==1) and (A==0 or N==2)" | split="B=0:1 N=0:7 K=0:4 A=0:1" where="K in (1,3) or N==1"
//@ H_rbuf  mode=X D="CAP=8 ZM=4" unwind=12 split="N=0:4 K=0:4 B=1:5" where="K in (1,3) or (N==1 and B==2)" | split="N=0:7 K=0:4 B=1:8" where="K in (1,3) or (N==1 and B==2)"
//@ H_write mode=X D="CAP=8 ZM=4" unwind=24 split="F=0:10 E=0:3 Z=0:3" where="E!=3 or Z==1" | split="F=0:10 E=0:4 Z=0:3" where="E>=0"
//@ H_fail  mode=X D="CAP=8 ZM=4" unwind=24 split="F=0:10 S=0:2 U=0:1 Z=2:2"
//@ H_open  mode=X D="CAP=8 ZM=4" unwind=24 split="F=0:10 W=0:1"
//@ H_size  mode=X D="CAP=8 ZM=4" unwind=12 split="K=0:4 N=0:3"
/* a file "f" of n bytes, or K: 0 nothing, 2 a directory, 3 a file that is shorter when it is read, 4 a link to nothing */
static int file(int K, size_t n, char *o) {
    vh_fs_init(); int g = vh_mk(0, "g", VH_FILE); vh_node[g].n = 1; vh_node[g].data[0] = 'G'; if (K == 0) return -1;
    int x = vh_mk(0, "f", K == 2 ? VH_DIR : K == 4 ? VH_LINK : VH_FILE); vh_node[x].n = n; for (size_t i = 0; i < n; i++) vh_node[x].data[i] = o[i] = vh_char();
    if (K == 3) vh_short = 1; return x;
}
static void rest(void) { int g = vh_find(0, "g"); CHECK(g >= 0 && vh_node[g].kind == VH_FILE && vh_node[g].n == 1 && vh_node[g].data[0] == 'G', "other files"); CHECK(vh_streams == 0, "streams closed"); CHECK(!vh_std_closed, "standard streams open"); }
static int has(int x, const char *e, size_t n) { if (x < 0 || vh_node[x].kind != VH_FILE || vh_node[x].n != n) return 0; int ok = 1; for (size_t i = 0; i < n; i++) ok &= vh_node[x].data[i] == e[i]; return ok; }
void H_read(void) {
    int b = vh_split(0), K; size_t N = vh_split(1); K = vh_split(2); vt_mallocator_t *a = vh_split(3) ? vt_mallocator_create() : NULL; char o[VH_DATA]; int x = file(K, N, o); size_t live = vh_live();
    vt_str_t *r = b ? vt_file_readb("f", a) : vt_file_read("f", a); rest();
    if (K == 1 || (K == 3 && N == 0)) { CHECK(r != NULL, "result"); vh_str_is(r, o, N, N); CHECK((void *)r->alloctr == (void *)a, "allocator"); CHECK(has(x, o, N), "file unchanged"); vt_str_destroy(r); }
    else CHECK(r == NULL, "failure");
    if (a == NULL) CHECK(vh_live() == live, "no block left"); REACH("done");
}
void H_rbuf(void) {
    size_t N = vh_split(0), B; int K = vh_split(1); B = vh_split(2); char o[VH_DATA]; file(K, N, o); char *b = malloc(B), p[9]; for (size_t i = 0; i < B; i++) b[i] = p[i] = vh_char();
    const char *r = vt_file_read_to_buffer("f", b, B); rest(); size_t k = N < B ? N : B;
    if (K == 1 || (K == 3 && (N == 0 || B < N))) { CHECK(r == b, "result"); int ok = 1; for (size_t i = 0; i < B; i++) ok &= b[i] == (i < k ? o[i] : p[i]); CHECK(ok, "contents"); }
    else CHECK(r == NULL, "failure");
    REACH("done"); free(b);
}
static int put(int F, const char *z) {
    switch (F) {
    case 0: return vt_file_write("f", z); case 1: return vt_file_writeln("f", z); case 2: return vt_file_writeb("f", z); case 3: return vt_file_writebln("f", z);
    case 4: return vt_file_append("f", z); case 5: return vt_file_appendln("f", z); case 6: return vt_file_appendb("f", z); case 7: return vt_file_appendbln("f", z);
    case 8: return vt_file_writef("f", "%s", z); case 9: return vt_file_writefln("f", "%s", z); default: return vt_file_writefc("f", true, true, true, "%s", z);
    }
}
static const int app[11] = {0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 1}, ln[11] = {0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 1};
/* E: 0 a new file, else one that holds E - 1 bytes */
void H_write(void) {
    int F = vh_split(0); size_t E = vh_split(1), zl = vh_split(2), n = 0; char o[VH_DATA], e[16], zb[ZM + 1]; int x = file(E ? 1 : 0, E ? E - 1 : 0, o); char *z = vh_zn(zb, ZM + 1, zl, 1);
    if (app[F]) for (size_t i = 0; i + 1 < E; i++) e[n++] = o[i];
    for (size_t i = 0; i < zl; i++) e[n++] = z[i]; if (ln[F]) e[n++] = '\n';
    CHECK(put(F, z), "reported success"); rest(); CHECK(has(vh_find(0, "f"), e, n), "contents of the file"); REACH("done");
}
/* the disk is full after S bytes */
void H_fail(void) {
    int F = vh_split(0); size_t S = vh_split(1), zl; vh_unbuffered = vh_split(2); zl = vh_split(3); char o[VH_DATA], zb[ZM + 1]; file(1, 1, o); char *z = vh_zn(zb, ZM + 1, zl, 1); vh_space = S;
    int r = put(F, z); CHECK((r != 0) == (S >= zl + ln[F]), "success exactly when everything was written"); rest(); REACH("done");
}
/* the file cannot be opened: W=0 not permitted, W=1 it is a directory */
void H_open(void) {
    int F = vh_split(0), W = vh_split(1); char o[VH_DATA]; int x = file(W ? 2 : 1, W ? 0 : 2, o); vh_fopen_fail = !W; char z[2] = {vh_char(), 0}; ASSUME(z[0] != 0);
    CHECK(!put(F, z), "reported failure"); rest(); if (!W) CHECK(has(x, o, 2), "file unchanged"); REACH("done");
}
void H_size(void) {
    int K = vh_split(0); size_t N = vh_split(1); char o[VH_DATA]; int x = file(K, N, o);
    CHECK(vt_path_exists("f") == (K != 0 && K != 4), "exists"); CHECK(vt_path_is_file("f") == (K == 1 || K == 3), "is a file"); CHECK(vt_path_is_dir("f") == (K == 2), "is a directory");
    CHECK(K == 0 || K == 4 ? vt_path_get_file_size("f") == -1 : K == 2 || vt_path_get_file_size("f") == (int64_t)N, "size"); rest(); REACH("done");
}
