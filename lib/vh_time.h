/* the Gregorian calendar: reference for the harnesses and basis of the mktime/localtime models */
#ifndef VH_TIME_H
#define VH_TIME_H
#include <stdint.h>
extern int64_t vh_now;
static const int32_t vh_cum[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
static const char vh_wn[7][4] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char vh_mn[12][4] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static inline int vh_leap(int32_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static inline int32_t vh_dim(int32_t y, int32_t m) { return m == 2 ? 28 + vh_leap(y) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static inline int32_t vh_yday(int32_t y, int32_t m, int32_t d) { return vh_cum[m] + (m > 2 && vh_leap(y)) + d - 1; }
/* days since 1970-01-01, for years above -10000 */
static inline int32_t vh_days(int32_t y, int32_t m, int32_t d) {
    uint32_t p = (uint32_t)(y + 9999);  /* full years since -9999-01-01, whose calendar repeats every 400 years */
    /* leap years among -9999 .. y-1: multiples of 4 minus those of 100 plus those of 400, counted from -10000 */
    uint32_t q = (uint32_t)(y + 9999); 
    int32_t leaps = (int32_t)(q / 4 - q / 100 + q / 400);
    return (int32_t)(p * 365u) + leaps + vh_yday(y, m, d) - 4371587;
}
static inline int32_t vh_wday(int32_t y, int32_t m, int32_t d) { uint32_t x = (uint32_t)(vh_days(y, m, d) + 7000000 + 4); return (int32_t)(x % 7); }
#endif
