/* strto* (symbolic build), C locale, base 10 */
#include "vh.h"
static int vh_sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static uint64_t vh_strto(const char *z, char **e, int sgn, int *neg, int *ovf) {
    size_t i = 0; uint64_t acc = 0; size_t nd = 0; *neg = 0; *ovf = 0;
    while (vh_sp(z[i])) i++;
    if (z[i] == '-') { *neg = 1; i++; } else if (z[i] == '+') i++;
    const uint64_t m = sgn ? (uint64_t)INT64_MAX + *neg : UINT64_MAX;
    const uint64_t q = sgn ? 922337203685477580u : 1844674407370955161u; const uint8_t r = sgn ? 7 + *neg : 5;
    for (; z[i] >= '0' && z[i] <= '9'; i++) {
        char c = z[i]; nd++;
        if (acc > q || (acc == q && c > '0' + r)) *ovf = 1;
        acc = acc * 10 + (uint64_t)(c - '0');
    }
    if (e) *e = (char *)(nd ? z + i : z);
    return *ovf ? m : acc;
}
long strtol(const char *z, char **e, int base) { int n, o; uint64_t v = vh_strto(z, e, 1, &n, &o); return n ? (long)-v : (long)v; }
long long strtoll(const char *z, char **e, int base) { return strtol(z, e, base); }
unsigned long strtoul(const char *z, char **e, int base) { int n, o; uint64_t v = vh_strto(z, e, 0, &n, &o); return n && !o ? -v : v; }
unsigned long long strtoull(const char *z, char **e, int base) { return strtoul(z, e, base); }
int atoi(const char *z) { return (int)strtol(z, 0, 10); }
long atol(const char *z) { return strtol(z, 0, 10); }
/* floating point: an arbitrary but fixed value per text (only which text is converted matters) */
double nondet_double(void); 
static const char *vh_fz; static double vh_fv;
double strtod(const char *z, char **e) { if (vh_fz != z) { vh_fz = z; vh_fv = nondet_double(); } return vh_fv; }
float strtof(const char *z, char **e) { return (float)strtod(z, e); }
long double strtold(const char *z, char **e) { return strtod(z, e); }
double atof(const char *z) { return strtod(z, 0); }
