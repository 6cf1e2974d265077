/* C21: timestamps as text */
#include "hdt.h"
#include <stdlib.h>
#include <string.h>
#ifndef F
#define F 0
#endif
//@ H_text   mode=X unwind=28 split="F=0:3 B=26:29"
//@ H_now    mode=X unwind=28 split="B=26:29"
//@ H_valid  mode=X unwind=24 split="F=0:2 N=0:21"
//@ H_parse  mode=X unwind=24 split="F=0:2 E=0:1"
static const char *const pat[3] = {"0000-00-00 00:00:00", "00000000T000000", "0000-00-00T00:00:00"};
static void two(char *b, int32_t v) { b[0] = '0' + v / 10; b[1] = '0' + v % 10; }
static void expect(char *b, int f, struct VitaDateTime v, int32_t w) {
    if (f == 3) {
        for (int i = 0; i < 3; i++) { b[i] = vh_wn[w][i]; b[4 + i] = vh_mn[v.month - 1][i]; }
        b[3] = b[7] = b[10] = b[19] = ' '; b[13] = b[16] = ':'; two(b + 8, v.month_day); if (b[8] == '0') b[8] = ' ';
        two(b + 11, v.hour); two(b + 14, v.minute); two(b + 17, v.second); two(b + 20, v.year / 100); two(b + 22, v.year % 100); b[24] = 0; return;
    }
    const char *p = pat[f]; int32_t q[7] = {v.year / 100, v.year % 100, v.month, v.month_day, v.hour, v.minute, v.second}; int k = 0, i = 0;
    while (p[i]) { if (p[i] != '0') { b[i] = p[i]; i++; } else { two(b + i, q[k++]); i += 2; } }
    b[i] = 0;
}
static int eq(const char *a, const char *b) { int r = 1, on = 1; for (int i = 0; i < 26; i++) { r &= !on | (a[i] == b[i]); on &= b[i] != 0; } return r; }
void H_text(void) {
    int f = vh_split(0); size_t B = vh_split(1); struct VitaDateTime v = date(1000, 9999); v.week_day = (int16_t)vh_range(1, 7); v.year_day = (int16_t)vh_range(1, 366);
    char *b = malloc(B), e[26]; ASSUME(b != NULL); expect(e, f, v, v.week_day % 7);
    if (f == 0) vt_datetime_to_text(v, b, B); else if (f == 1) vt_datetime_to_text_iso(v, b, B); else if (f == 2) vt_datetime_to_text_iso_ext(v, b, B); else vt_datetime_to_text_pretty(v, b, B);
    CHECK(eq(b, e), "text of the timestamp"); REACH("done"); free(b);
}
void H_now(void) {
    size_t B = vh_split(0); vh_now = (int64_t)vh_u64(); ASSUME(vh_now >= -2208988800 && vh_now < 253402300800); time_t n = vh_now; struct tm t = *localtime(&n);
    struct VitaDateTime v = {.year = t.tm_year + 1900, .month = t.tm_mon + 1, .month_day = t.tm_mday, .hour = t.tm_hour, .minute = t.tm_min, .second = t.tm_sec};
    char *b = malloc(B), e[26]; ASSUME(b != NULL); expect(e, 0, v, 0); vt_datetime_get_now_as_text(b, B); CHECK(eq(b, e), "text of the current time");
    expect(e, 3, v, t.tm_wday); vt_datetime_get_now_as_text_pretty(b, B); CHECK(eq(b, e), "pretty text of the current time"); REACH("done"); free(b);
}
void H_valid(void) {
    int f = vh_split(0); size_t n = vh_split(1); char *z = malloc(n + 1); ASSUME(z != NULL); for (size_t i = 0; i < n; i++) { z[i] = vh_char(); ASSUME(z[i] != 0); } z[n] = 0;
    int ok = 1; for (size_t i = 0; pat[f][i]; i++) { if (i >= n) { ok = 0; break; } ok &= pat[f][i] == '0' ? z[i] >= '0' && z[i] <= '9' : z[i] == pat[f][i]; }
    bool r = f == 0 ? vt_datetime_is_valid_text(z) : f == 1 ? vt_datetime_is_valid_text_iso(z) : vt_datetime_is_valid_text_iso_ext(z);
    CHECK(r == (ok != 0), "valid exactly when the text has the format"); REACH("done"); free(z);
}
void H_parse(void) {
    int f = vh_split(0); size_t x = vh_split(1), n = strlen(pat[f]); char *z = malloc(n + x + 1); ASSUME(z != NULL); int32_t q[6] = {0}; int k = 0, d = 0;
    for (size_t i = 0; i < n; i++) {
        if (pat[f][i] != '0') { z[i] = pat[f][i]; continue; }
        z[i] = vh_char(); ASSUME(z[i] >= '0' && z[i] <= '9'); q[k] = q[k] * 10 + (z[i] - '0'); if (++d == (k ? 2 : 4)) { k++; d = 0; }
    }
    for (size_t i = 0; i < x; i++) { z[n + i] = vh_char(); ASSUME(z[n + i] != 0); } z[n + x] = 0;
    ASSUME(q[0] >= 1 && q[1] >= 1 && q[1] <= 12 && q[2] >= 1 && q[2] <= vh_dim(q[0], q[1]) && q[3] < 24 && q[4] < 60 && q[5] < 60);
    struct VitaDateTime v = {.year = q[0], .month = q[1], .month_day = q[2], .hour = q[3], .minute = q[4], .second = q[5]}; struct tm t = cal(v);
    struct VitaDateTime r = f == 0 ? vt_datetime_from_text(z) : f == 1 ? vt_datetime_from_text_iso(z) : vt_datetime_from_text_iso_ext(z);
    CHECK(same(r, t), "date and time of the text, with its week day and year day"); REACH("done"); free(z);
}
