/* C28: log and debug messages */
#include "hs.h"
#include "vh_fs.h"
#include "vh_time.h"
#include "vita/util/log.h"
#include "vita/util/debug.h"
#undef __SOURCE_FILENAME__
#define __SOURCE_FILENAME__ "a.c"
//@ H_log    debug=real mode=X D="CAP=8 ZM=4 VH_DATA=128 VH_TMP=128 VH_PATH_MAX=16" unwind=134 split="L=0:6 W=0:3 O=0:1 M=0:2" where="(O==0 or W in (1,2)) and (M==1 or (W==1 and O==0 and L in (0,5))) and (W<2 or L in (0,3,5))" opts="--max-field-sensitivity-array-size 128"
//@ H_logf   debug=real mode=X D="CAP=8 ZM=4 VH_DATA=128 VH_TMP=128 VH_PATH_MAX=16" unwind=134 split="L=0:6 W=0:1" opts="--max-field-sensitivity-array-size 128"
//@ H_route  debug=real mode=X D="CAP=8 ZM=4 VH_DATA=128 VH_TMP=128 VH_PATH_MAX=16" unwind=134 split="P=0:5 L=0:5 R=0:2" where="L<4 and (P==L or P==(L+1)%6)" opts="--max-field-sensitivity-array-size 128"
//@ H_debug  debug=real mode=X D="CAP=8 ZM=4 VH_DATA=128 VH_TMP=128 VH_PATH_MAX=16" unwind=134 uset="data.0:130,see.2:130,ad.0:130,H_debug.0:130" split="L=0:10 W=0:2 O=0:1 M=1:1" where="O==0 or W==1" opts="--max-field-sensitivity-array-size 128"
//@ H_name   debug=real mode=X D="CAP=8 ZM=4 VH_DATA=128 VH_TMP=128 VH_PATH_MAX=16" unwind=134 opts="--max-field-sensitivity-array-size 128"
static const char *const lv[6] = {" INFO", " WARN", "DEBUG", "ERROR", "FATAL", "ASSERT FAILURE"};
static char e[128]; static size_t n; static int to, ends, other;
static void ad(const char *z) { for (size_t i = 0; z[i]; i++) e[n++] = z[i]; }
static void adm(const char *z, size_t k) { for (size_t i = 0; i < k; i++) e[n++] = z[i]; }
static int data(int x, const char *p, size_t k) { if (x < 0) return k == 0; if (vh_node[x].n != k) return 0; int ok = 1; for (size_t i = 0; i < k; i++) ok &= vh_node[x].data[i] == p[i]; return ok; }
/* what is in stderr (node vh_err) and in the files f and g: one of them has the expected text, the others nothing */
static void see(void) {
    int f = vh_find(0, "f"), g = vh_find(0, "g");
    if (to == 3) CHECK(vh_err >= 0 && vh_node[vh_err].n >= n && f < 0, "message on stderr when the file cannot be opened");   /* after a note about the file */
    else CHECK(data(vh_err, e, to == 0 ? n : 0) && data(f, e, to == 1 ? n : 0) && data(g, e, to == 2 ? n : 0), "the message, where it belongs and nowhere else");
    if (to == 3) { int ok = 1; size_t o = vh_node[vh_err].n - n; for (size_t i = 0; i < n; i++) ok &= vh_node[vh_err].data[o + i] == e[i]; CHECK(ok, "message at the end of stderr"); }
    CHECK(vh_streams == 0, "files closed"); CHECK(!vh_std_closed, "standard streams open");
}
static void ended(int c) { CHECK(ends, "must not terminate"); CHECK(c == 1, "exit code"); see(); }
static void init(void) { vh_fs_init(); vh_err = vh_mk(1, "e", VH_FILE); vh_now = 0; vh_exit_ok = 1; vh_exit_hook = ended; }
static void text(const char *lvl, const char *x, const char *m, size_t ml) { n = 0; ad("1970-01-01 00:00:00 "); ad(lvl); ad(" "); if (x) { ad("["); ad(x); ad("] "); } ad("a.c:7: "); adm(m, ml); ad("\n"); }
/* L: 5 failing assertion, 6 assertion that holds; W: 0 stderr, 1 level redirected to f, 2 all redirected to f, 3 redirected and back */
void H_log(void) {
    int L = vh_split(0), W = vh_split(1), O = vh_split(2); size_t ml = vh_split(3); init(); char mb[ZM + 1], *m = vh_zn(mb, ZM + 1, ml, 1); int l = L > 5 ? 5 : L;
    if (W == 1) vt_log_redirect_level_output(l, "f"); if (W == 2) vt_log_redirect_all_output("f"); if (W == 3) { vt_log_redirect_all_output("f"); vt_log_redirect_level_output(l, NULL); }
    to = W == 1 || W == 2; if (O) { vh_fopen_fail = 1; if (to) to = 3; } ends = L == 4 || L == 5; text(lv[l], L == 5 ? "0 == m[0]" : NULL, m, ml); if (L == 6) n = 0, to = to == 3 ? 0 : to;
    REACH("call");
    switch (L) {
#line 7
    case 0: VT_LOG_INFO("%s", m); break;
#line 7
    case 1: VT_LOG_WARN("%s", m); break;
#line 7
    case 2: VT_LOG_DEBUG("%s", m); break;
#line 7
    case 3: VT_LOG_ERROR("%s", m); break;
#line 7
    case 4: VT_LOG_FATAL("%s", m); break;
#line 7
    case 5: if (ml) VT_LOG_ASSERT(0 == m[0], "%s", m); else vt_log(NULL, vt_log_assert, false, "0 == m[0]", "a.c", 7, "%s", m); break;
    default: VT_LOG_ASSERT(m[ml] == 0, "%s", m);
    }
#line 50
    CHECK(!ends, "must terminate"); see();
}
/* W: 1 the level is redirected elsewhere, which an explicit file overrides */
void H_logf(void) {
    int L = vh_split(0), W = vh_split(1); init(); char m[2] = {vh_char(), 0}; ASSUME(m[0] != 0); int l = L > 5 ? 5 : L; if (W) vt_log_redirect_level_output(l, "g");
    to = 1; ends = L == 4 || L == 5; text(lv[l], L == 5 ? "0 == m[0]" : NULL, m, 1); if (L == 6) n = 0; REACH("call");
    switch (L) {
#line 7
    case 0: VT_LOGF_INFO("f", "%s", m); break;
#line 7
    case 1: VT_LOGF_WARN("f", "%s", m); break;
#line 7
    case 2: VT_LOGF_DEBUG("f", "%s", m); break;
#line 7
    case 3: VT_LOGF_ERROR("f", "%s", m); break;
#line 7
    case 4: VT_LOGF_FATAL("f", "%s", m); break;
#line 7
    case 5: VT_LOGF_ASSERT("f", 0 == m[0], "%s", m); break;
    default: VT_LOGF_ASSERT("f", m[1] == 0, "%s", m);
    }
#line 90
    CHECK(!ends, "must terminate"); see();
}
/* redirecting one level (P) leaves the others (L) alone; R: 0 nothing else, 1 after all went to g, 2 L was redirected to g before */
void H_route(void) {
    int P = vh_split(0), L = vh_split(1), R = vh_split(2); init(); char m[2] = {vh_char(), 0}; ASSUME(m[0] != 0); to = 0;
    if (R == 1) { vt_log_redirect_all_output("g"); to = 2; } if (R == 2) { vt_log_redirect_level_output(L, "g"); to = 2; }
    vt_log_redirect_level_output(P, "f"); if (P == L) to = 1; text(lv[L], NULL, m, 1); vt_log(NULL, L, false, NULL, "a.c", 7, "%s", m); see(); REACH("done");
}
static void dtext(const char *s, const char *x, const char *m, size_t ml) { n = 0; ad("1970-01-01 00:00:00 "); ad(s); ad(" "); if (x) { ad("["); ad(x); ad("] a.c:H_debug:7: "); } adm(m, ml); if (x) ad("\n"); }
/* W: 1 redirected to f, 2 output disabled; L: which macro */
void H_debug(void) {
    int L = vh_split(0), W = vh_split(1), O = vh_split(2); size_t ml = vh_split(3); init(); char mb[ZM + 1], *m = vh_zn(mb, ZM + 1, ml, 1); char x = m[0];
    static const char *const sub[11] = {"CHECK FAILURE", "ENFORCE FAILURE", "DEBUG ASSERTION FAILURE", "NOTE", "REQUIRED", "TODO", "UNIMPLEMENTED", "DEBUG INFO", "", "", ""};
    if (W == 1) vt_debug_redirect_output("f"); if (W == 2) vt_debug_disable_output(true); if (O) vh_fopen_fail = 1; to = W == 1 ? (O ? 3 : 1) : 0; ends = L == 1 || L == 2 || (L >= 4 && L <= 6);
    dtext(sub[L], L == 7 ? NULL : L < 3 ? "!x" : "!", m, ml); if (W == 2 || L > 7) { n = 0; if (to == 3) to = 0; } REACH("call");
    switch (L) {
#line 7
    case 0: VT_CHECK(!x, "%s", m); break;
#line 7
    case 1: VT_ENFORCE(!x, "%s", m); break;
#line 7
    case 2: VT_DEBUG_ASSERT(!x, "%s", m); break;
#line 7
    case 3: VT_NOTE("%s", m); break;
#line 7
    case 4: VT_REQUIRED("%s", m); break;
#line 7
    case 5: VT_TODO("%s", m); break;
#line 7
    case 6: VT_UNIMPLEMENTED("%s", m); break;
#line 7
    case 7: VT_DEBUG_PRINTF("%s", m); break;
    case 8: VT_CHECK(x, "%s", m); break; case 9: VT_ENFORCE(x, "%s", m); break; default: VT_DEBUG_ASSERT(x, "%s", m);
    }
#line 130
    CHECK(!ends, "must terminate"); see();
    /* output can be switched back */
    if (W == 1) { vt_debug_redirect_output(NULL); vh_fopen_fail = 0; } if (W == 2) vt_debug_disable_output(false);
    if (W) { n = 0; size_t k = vh_node[vh_err].n; vt_debug_printf("S", "%s", m); dtext("S", NULL, m, ml); int ok = vh_node[vh_err].n == k + n; for (size_t i = 0; i < n; i++) ok &= vh_node[vh_err].data[k + i] == e[i]; CHECK(ok, "output switched back"); }
}
void H_name(void) { for (int i = 0; i < 6; i++) { const char *z = vt_log_get_level_str(i), *w = lv[i][0] == ' ' ? lv[i] + 1 : lv[i]; int ok = 1; for (int j = 0; ok; j++) { ok = z[j] == w[j]; if (w[j] == 0) break; } CHECK(ok, "level name"); } REACH("done"); }
