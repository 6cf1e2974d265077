/* C05: trimming, case mapping and character classification */
#include "hs.h"
//@ H_strip   unwind="C+3" mode=X D="CAP=8" split="L=0:6 C=L:L+1" | D="CAP=11" split="L=0:10 C=L:L+1"
//@ H_strip_p unwind="C+3" mode=X D="CAP=8" split="L=0:6 C=L:L+1" | D="CAP=11" split="L=0:10 C=L:L+1"
//@ H_strip_c unwind="C+Z+3" mode=X D="CAP=8 ZM=3" split="L=0:5 C=L:L+1 Z=0:2" | D="CAP=9 ZM=3" split="L=0:8 C=L:L+1 Z=0:3"
//@ H_case    unwind="C+3" mode=X D="CAP=8" split="L=0:8 C=L:L" | D="CAP=13" split="L=0:12 C=L:L+1"
//@ H_num     unwind="C+3" mode=X D="CAP=8" split="L=1:7 C=L:L N=1:L" | D="CAP=11" split="L=1:10 C=L:L+1 N=1:L"
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int pu(char c) { return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); }
static char *cset; static size_t cl;
static int drop(char c, int kind) {
    if (kind == 0) return sp(c);
    if (kind == 1) return sp(c) || pu(c);
    for (size_t j = 0; j < ZM; j++) if (j < cl && cset[j] == c) return 1;
    return 0;
}
static void strip(int kind) {
    STR;
    char cb[ZM + 1]; if (kind == 2) { cl = vh_split(2); cset = vh_zn(cb, ZM + 1, cl, 1); }
    if (kind == 0) vt_str_strip(s); else if (kind == 1) vt_str_strip_punct(s); else vt_str_strip_c(s, cset);
    size_t a = len, z = 0;
    for (size_t i = CAP; i-- > 0;) if (i < len && !drop(old[i], kind)) a = i;
    for (size_t i = 0; i < CAP; i++) if (i < len && !drop(old[i], kind)) z = i + 1;
    size_t n = z > a ? z - a : 0;
    char e[CAP + 1]; for (size_t i = 0; i < CAP; i++) e[i] = i < n ? old[a + i] : 0;
    vh_str_is(s, e, n, CAP);
    CHECK(s->capacity == cap && s->ptr == p && vh_live() == 2, "buffer kept");
    if (n == 0 && len > 0) REACH("all stripped"); else if (n < len) REACH("some stripped"); else if (len == 0) REACH("empty"); else REACH("nothing");
}
void H_strip(void) { strip(0); }
void H_strip_p(void) { strip(1); }
void H_strip_c(void) { strip(2); }
void H_case(void) {
    STR; bool up = vh_bool();
    if (up) vt_str_to_uppercase(s); else vt_str_to_lowercase(s);
    for (size_t i = 0; i < CAP; i++) if (i < len) {
        if (up && old[i] >= 'a' && old[i] <= 'z') old[i] -= 32;
        else if (!up && old[i] >= 'A' && old[i] <= 'Z') old[i] += 32;
    }
    vh_str_is(s, old, len, CAP);
    if (up) REACH("upper"); else REACH("lower");
}
void H_num(void) {
    STR;
    bool e = true; for (size_t i = 0; i < CAP; i++) if (i < len && !(old[i] >= '0' && old[i] <= '9') && old[i] != '.') e = false;
    CHECK(vt_str_is_numeric(s) == e, "is_numeric");
    size_t n = vh_split(2);
    bool f = true; for (size_t i = 0; i < CAP; i++) if (i < n && !(old[i] >= '0' && old[i] <= '9') && old[i] != '.') f = false;
    CHECK(vt_str_is_numeric_z(vt_str_z(s), n) == f, "is_numeric_z looks at the first n characters only");
    vh_str_is(s, old, len, CAP);
    if (e) REACH("numeric"); else if (f) REACH("numeric prefix"); else REACH("not numeric");
}
