/* C20: calendar facts */
#include "hdt.h"
//@ H_month unwind=4
//@ H_day   unwind=6
//@ H_create unwind=6
//@ H_clamp unwind=6
//@ H_now   unwind=6
void H_month(void) {
    struct VitaDateTime v = {.year = (int16_t)vh_u16(), .month = (int16_t)vh_u16(), .month_day = (int16_t)vh_u16()};
    ASSUME(v.year != 0); int32_t y = v.year < 0 ? 1900 : v.year, m = v.month < 1 ? 1 : v.month > 12 ? 12 : v.month;  /* the year 0 is outside the calendar */
    CHECK(vt_datetime_is_leap_year(v) == (vh_leap(y) != 0), "leap year");
    CHECK(vt_datetime_find_days_in_year(v) == 365 + vh_leap(y), "days in the year");
    CHECK(vt_datetime_find_days_in_month(v) == vh_dim(y, m), "days in the month"); if (vh_leap(y)) REACH("leap"); else REACH("common");
}
void H_day(void) {
    struct VitaDateTime v = date(1, INT16_MAX); v.week_day = (int16_t)vh_u16(); v.year_day = (int16_t)vh_u16(); ASSUME(v.year_day > INT16_MIN); struct tm t = cal(v);
    CHECK(vt_datetime_find_week_day(v) == (t.tm_wday == 0 ? 7 : t.tm_wday), "week day");
    CHECK(vt_datetime_find_year_day(v) == t.tm_yday + 1, "day of the year"); REACH("done");
}
void H_create(void) {
    struct VitaDateTime v = date(1, INT16_MAX); int16_t wd = (int16_t)vh_u16(), yd = (int16_t)vh_u16(); struct tm t = cal(v);
    struct VitaDateTime r = vt_datetime_create(v.year, v.month, v.month_day, v.hour, v.minute, v.second, wd, yd);
    CHECK(r.year == v.year && r.month == v.month && r.month_day == v.month_day && r.hour == v.hour && r.minute == v.minute && r.second == v.second, "valid fields are kept");
    CHECK(r.week_day == (wd >= 1 && wd <= 7 ? wd : t.tm_wday == 0 ? 7 : t.tm_wday), "week day kept or computed");
    CHECK(r.year_day == (yd >= 1 && yd <= 366 ? yd : t.tm_yday + 1), "year day kept or computed");
    if (wd == -1 && yd == -1) REACH("computed"); else REACH("kept");
}
#define CL(x, lo, hi) ((x) < (lo) ? (lo) : (x) > (hi) ? (hi) : (x))
void H_clamp(void) {
    int16_t y = (int16_t)vh_u16(), m = (int16_t)vh_u16(), d = (int16_t)vh_u16(), h = (int16_t)vh_u16(), mi = (int16_t)vh_u16(), s = (int16_t)vh_u16();
    ASSUME(y != 0); struct VitaDateTime r = vt_datetime_create(y, m, d, h, mi, s, 1, 1);
    CHECK(r.year == (y < 0 ? 1900 : y) && r.month == CL(m, 1, 12), "year and month");
    CHECK(r.month_day == (d < 1 ? 1 : d > 31 ? vh_dim(r.year, r.month) : d), "day");
    CHECK(r.hour == CL(h, 0, 23) && r.minute == CL(mi, 0, 59) && r.second == CL(s, 0, 60), "time"); REACH("done");
}
void H_now(void) {
    vh_now = (int64_t)vh_u64(); ASSUME(vh_now >= -2208988800 && vh_now < 253402300800);  /* 1900 to 9999 */
    time_t n = vh_now; struct tm t = *localtime(&n); struct VitaDateTime r = vt_datetime_get_now();
    CHECK(r.year == t.tm_year + 1900 && r.month == t.tm_mon + 1 && r.month_day == t.tm_mday && r.hour == t.tm_hour && r.minute == t.tm_min && r.second == t.tm_sec, "the current time");
    CHECK(r.week_day == (t.tm_wday == 0 ? 7 : t.tm_wday) && r.year_day == t.tm_yday + 1, "its week day and year day"); REACH("done");
}
