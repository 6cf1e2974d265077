/* C22: datetime arithmetic */
#include "hdt.h"
#ifndef NEG
#define NEG 0
#endif
//@ H_secs  unwind=6
//@ H_from  unwind=6
//@ H_round unwind=6
//@ H_op    unwind=6
//@ H_dsecs unwind=6
//@ H_units unwind=6 split="D=0:30 H=0:23 S=0:1" where="H in (0,11,23) and D in (0,1,7,30)" | where="H in (0,1,11,12,23) and D in (0,1,2,7,14,30)"
//@ H_diff  unwind=6 split="D=0:11 H=0:23 S=0:1" where="H in (0,7,23) and D in (0,1,10)" | where="H in (0,5,12,23)"
//@ H_diff1 unwind=6
void H_secs(void) {
    struct VitaDateTime v = date(1, INT16_MAX); v.week_day = (int16_t)vh_u16(); v.year_day = (int16_t)vh_u16(); struct tm t = ftm(v); time_t s = mktime(&t);
    CHECK(vt_datetime_to_secs(v) == s, "seconds since the epoch"); REACH("done");
}
void H_from(void) {
    time_t s = (time_t)vh_u64(); ASSUME(s >= -62135596800 && s < 253402300800); struct tm t = *localtime(&s);
    CHECK(same(vt_datetime_from_secs(s), t), "date and time of the seconds"); REACH("done");
}
void H_round(void) {
    struct VitaDateTime v = date(1, INT16_MAX); struct tm t = cal(v); CHECK(same(vt_datetime_from_secs(vt_datetime_to_secs(v)), t), "round trip"); REACH("done");
}
void H_op(void) {
    struct VitaDateTime v = date(1, INT16_MAX), d; d.year = (int16_t)vh_u16(); d.month = (int16_t)vh_u16(); d.month_day = (int16_t)vh_u16(); d.hour = (int16_t)vh_u16(); d.minute = (int16_t)vh_u16(); d.second = (int16_t)vh_u16();
    d.week_day = (int16_t)vh_u16(); d.year_day = (int16_t)vh_u16();
    struct tm t = ftm(v); t.tm_year += d.year; t.tm_mon += d.month; t.tm_mday += d.month_day; t.tm_hour += d.hour; t.tm_min += d.minute; t.tm_sec += d.second;
    ASSUME(t.tm_year > -5000); mktime(&t); ASSUME(t.tm_year + 1900 >= 1 && t.tm_year + 1900 <= INT16_MAX);
    CHECK(same(vt_datetime_op(v, d), t), "the sum of the fields, normalised"); REACH("done");
}
void H_dsecs(void) {
    struct VitaDateTime a = date(1, INT16_MAX), b = date(1, INT16_MAX); struct tm ta = ftm(a), tb = ftm(b); int64_t x = mktime(&ta), y = mktime(&tb), s = x - y;
    CHECK(vt_datetime_diff_secs(a, b) == s, "difference in seconds");
    REACH("done");
}
/* two times at most 12 days apart, the smaller the first of January 2000; single precision costs at most a second */
static struct VitaDateTime bd(int D, int H, int M, int S, int neg) {
    struct VitaDateTime b = {.year = 2000, .month = 1, .month_day = 1}, a = {.year = 2000, .month = 1, .month_day = (int16_t)(1 + D), .hour = (int16_t)H, .minute = (int16_t)M, .second = (int16_t)S};
    struct VitaDateTime r = neg ? vt_datetime_diff(b, a) : vt_datetime_diff(a, b); return r;
}
void H_units(void) {
    int D = vh_split(0), H = vh_split(1), neg = vh_split(2), M = vh_range(0, 59), S = vh_range(0, 59);
    struct VitaDateTime b = {.year = 2000, .month = 1, .month_day = 1}, a = {.year = 2000, .month = 1, .month_day = (int16_t)(1 + D), .hour = (int16_t)H, .minute = (int16_t)M, .second = (int16_t)S};
    struct VitaDateTime x = neg ? b : a, y = neg ? a : b; int64_t sg = neg ? -1 : 1;
    CHECK(vt_datetime_diff_minutes(x, y) == sg * (D * 1440 + H * 60 + M), "difference in minutes");
    CHECK(vt_datetime_diff_hours(x, y) == sg * (D * 24 + H), "difference in hours");
    CHECK(vt_datetime_diff_days(x, y) == sg * D, "difference in days"); REACH("done");
}
void H_diff(void) {
    int D = vh_split(0), H = vh_split(1), neg = vh_split(2), M = vh_range(0, 59), S = vh_range(0, 59); struct VitaDateTime r = bd(D, H, M, S, neg);
    int32_t w = D * 86400 + H * 3600 + M * 60 + S, g = r.month_day * 86400 + r.hour * 3600 + r.minute * 60 + r.second; if (neg) w = -w;
    CHECK(g >= w - 1 && g <= w + 1 && r.year == 0 && r.month == 0, "days, hours, minutes and seconds of the difference");
    CHECK(neg ? (r.hour <= 0) & (r.hour > -24) & (r.minute <= 0) & (r.minute > -60) & (r.second <= 0) & (r.second > -60) & (r.month_day <= 0)
              : (r.hour >= 0) & (r.hour < 24) & (r.minute >= 0) & (r.minute < 60) & (r.second >= 0) & (r.second < 60) & (r.month_day >= 0), "each field within its unit"); REACH("done");
}
void H_diff1(void) {
    struct VitaDateTime r = bd(0, 0, 0, 5, 0); REACH("done"); CHECK(r.minute == 0 && r.second == 5, "five seconds apart");
}
