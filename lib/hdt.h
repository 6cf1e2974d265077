/* dates for the datetime harnesses */
#ifndef HDT_H
#define HDT_H
#include "vh.h"
#include "vh_time.h"
#include "vita/time/datetime.h"
#include <time.h>
static inline struct VitaDateTime date(int32_t lo, int32_t hi) {
    struct VitaDateTime v = {.year = (int16_t)vh_range(lo, hi), .month = (int16_t)vh_range(1, 12), .month_day = (int16_t)vh_range(1, 31), .hour = (int16_t)vh_range(0, 23), .minute = (int16_t)vh_range(0, 59), .second = (int16_t)vh_range(0, 59)};
    ASSUME(v.month_day <= vh_dim(v.year, v.month)); return v;
}
static inline struct tm ftm(struct VitaDateTime v) {
    struct tm t = {.tm_year = v.year - 1900, .tm_mon = v.month - 1, .tm_mday = v.month_day, .tm_hour = v.hour, .tm_min = v.minute, .tm_sec = v.second}; return t;
}
/* the calendar's answer for the date: the C library's, which the model computes from the rules in vh_time.h */
static inline struct tm cal(struct VitaDateTime v) { struct tm t = ftm(v); mktime(&t); return t; }
static inline int same(struct VitaDateTime r, struct tm t) {
    return (r.year == t.tm_year + 1900) & (r.month == t.tm_mon + 1) & (r.month_day == t.tm_mday) & (r.hour == t.tm_hour) & (r.minute == t.tm_min) & (r.second == t.tm_sec)
        & (r.week_day == (t.tm_wday == 0 ? 7 : t.tm_wday)) & (r.year_day == t.tm_yday + 1);
}
#endif
