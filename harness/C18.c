/* C18: integer arithmetic helpers, comparisons and raw memory helpers */
#include "vh.h"
#include "vita/math/math.h"
#include "vita/algorithm/comparison.h"
#include "vita/core/core.h"
#ifndef GB
#define GB 31
#endif
//@ H_gcd  unwind=12 D="GB=24" split="A=0:24" | D="GB=127" split="A=0:127" unwind=18
//@ H_lcm  unwind=12 D="GB=15" split="A=0:15" | D="GB=63" split="A=0:63" unwind=18
//@ H_big  unwind=10 D="GB=20" split="A=0:9 S=20:40" where="S in (20,40)" timeout=300
//@ H_palin unwind=22 split="D=1:5" | split="D=1:8"
//@ H_cmp  unwind=4 split="T=0:10"
//@ H_close unwind=8
//@ H_mem  unwind=12 mode=X split="N=0:6 A=0:2" | split="N=0:10 A=0:4" unwind=16
//@ H_swap unwind=12 mode=X split="N=1:6" | split="N=1:16" unwind=20 D="MAXCPY=24"
//@ H_status unwind=60
/* greatest: every common divisor d (symbolic) is at most g */
static int divides(size_t d, size_t n) { return d == 0 ? n == 0 : n % d == 0; }
void H_gcd(void) {
    size_t a = vh_split(0), b = vh_range(0, GB), d = vh_range(1, GB); bool sw = vh_bool();
    int64_t g = sw ? vt_math_gcd(b, a) : vt_math_gcd(a, b);
    if (a == 0 && b == 0) { CHECK(g == 0, "gcd(0, 0)"); }
    else {
        CHECK(g >= 1 && g <= GB, "range"); 
        CHECK(divides((uint8_t)g, (uint8_t)a) && divides((uint8_t)g, (uint8_t)b), "common divisor");
        CHECK(!(divides((uint8_t)d, (uint8_t)a) && divides((uint8_t)d, (uint8_t)b)) || (int64_t)d <= g, "greatest");
        REACH("gcd");
    }
}
void H_lcm(void) {
    size_t a = vh_split(0), b = vh_range(0, GB), d = vh_range(1, GB * GB); bool sw = vh_bool();
    int64_t l = sw ? vt_math_lcm(b, a) : vt_math_lcm(a, b);
    if (a == 0 || b == 0) { CHECK(l == 0, "lcm with 0"); }
    else {
        CHECK(l >= 1 && l <= GB * GB, "range");
        CHECK((uint16_t)l % (uint16_t)a == 0 && (uint16_t)l % (uint16_t)b == 0, "common multiple");
        CHECK(!((uint16_t)d % (uint16_t)a == 0 && (uint16_t)d % (uint16_t)b == 0) || (int64_t)d >= l, "least");
    }
    REACH("lcm");
}
void H_palin(void) {
    size_t D = vh_split(0); uint8_t d[8]; uint64_t n = 0; int pal = 1;
    for (size_t i = 0; i < D; i++) { d[i] = vh_range(0, 9); n = n * 10 + d[i]; }
    ASSUME(D == 1 || d[0] != 0);
    for (size_t i = 0; i < D; i++) pal = pal & (d[i] == d[D - 1 - i]);
    CHECK(vt_math_is_palindrome(n) == (pal != 0), "palindrome"); if (pal) REACH("yes"); else REACH("no");
}
#define ONE(T, t, isnan_) { T x, y, l, h; for (size_t i = 0; i < sizeof(T); i++) { ((unsigned char *)&x)[i] = vh_u8(); ((unsigned char *)&y)[i] = vh_u8(); ((unsigned char *)&l)[i] = vh_u8(); ((unsigned char *)&h)[i] = vh_u8(); } \
    ASSUME(x == x && y == y && l == l && h == h && l <= h); \
    T a = vt_cmp_min##t(x, y), b = vt_cmp_max##t(x, y), c = vt_cmp_clamp##t(x, l, h); \
    CHECK(a <= x && a <= y && (a == x || a == y), "minimum"); CHECK(b >= x && b >= y && (b == x || b == y), "maximum"); \
    CHECK(c >= l && c <= h && (c == x || (x < l && c == l) || (x > h && c == h)), "clamped"); REACH("done"); }
void H_cmp(void) {
    switch (vh_split(0)) {
    case 0: ONE(int8_t, i8, ) break; case 1: ONE(uint8_t, u8, ) break; case 2: ONE(int16_t, i16, ) break; case 3: ONE(uint16_t, u16, ) break;
    case 4: ONE(int32_t, i32, ) break; case 5: ONE(uint32_t, u32, ) break; case 6: ONE(int64_t, i64, ) break; case 7: ONE(uint64_t, u64, ) break;
    case 8: ONE(float, f, ) break; case 9: ONE(double, d, ) break;
    default: { double x, y, l, h; for (size_t i = 0; i < 8; i++) { ((unsigned char *)&x)[i] = vh_u8(); ((unsigned char *)&y)[i] = vh_u8(); ((unsigned char *)&l)[i] = vh_u8(); ((unsigned char *)&h)[i] = vh_u8(); }
        ASSUME(x == x && y == y && l == l && h == h && l <= h);
        real a = vt_cmp_minr(x, y), b = vt_cmp_maxr(x, y), c = vt_cmp_clampr(x, l, h);
        CHECK(a <= x && a <= y && (a == x || a == y), "minimum"); CHECK(b >= x && b >= y && (b == x || b == y), "maximum");
        CHECK(c >= l && c <= h && (c == x || (x < l && c == l) || (x > h && c == h)), "clamped"); REACH("done"); }
    }
}
void H_close(void) {
    float x, y, t; uint32_t a = vh_u32(), b = vh_u32(), c = vh_u32(); memcpy(&x, &a, 4); memcpy(&y, &b, 4); memcpy(&t, &c, 4);
    ASSUME(x - x == 0 && y - y == 0 && t - t == 0);
    bool r = vt_math_is_close(x, y, t); float d = x - y;
    CHECK(r == (d < 0 ? -d < (t < 0 ? -t : t) : d < (t < 0 ? -t : t)), "closer than the tolerance");
    if (r) REACH("close"); else REACH("far");
}
/* A: offset between overlapping regions of one buffer for the move */
void H_mem(void) {
    size_t n = vh_split(0), o = vh_split(1); unsigned char b[40], e[40], c[20], x[20]; bool up = vh_bool(); int ok = 1;
    for (size_t i = 0; i < 40; i++) { unsigned char v = vh_u8(); b[i] = v; e[i] = v; }
    for (size_t i = 0; i < 20; i++) { unsigned char v = vh_u8(); c[i] = v; x[i] = v; }
    size_t s = 8, d = up ? 8 + o : 8 - o;
    CHECK(vt_memmove(b + d, b + s, n) == b + d, "returns the destination");
    for (size_t i = 0; i < 40; i++) ok = ok & (b[i] == (i >= d && i < d + n ? e[i - d + s] : e[i]));
    CHECK(ok, "moved"); 
    CHECK(vt_memcopy(c + 1, b + d, n) == c + 1, "returns the destination"); ok = 1;
    for (size_t i = 0; i < 20; i++) ok = ok & (c[i] == (i >= 1 && i < 1 + n ? b[d + i - 1] : x[i]));
    CHECK(ok, "copied");
    CHECK(vt_memcmp(c + 1, b + d, n) == (n > 0), "equal memory compares equal");
    size_t k = vh_range(0, 15); unsigned char old = c[1 + k], v = vh_u8(); c[1 + k] = v;
    CHECK(vt_memcmp(c + 1, b + d, n) == (n > 0 && (k >= n || old == v)), "different memory compares different");
    for (size_t i = 0; i < 20; i++) x[i] = c[i];
    int32_t val = (int32_t)vh_u32(); ok = 1;
    CHECK(vt_memset(c + 1, val, n) == c + 1, "returns the destination");
    for (size_t i = 0; i < 20; i++) ok = ok & (c[i] == (i >= 1 && i < 1 + n ? (unsigned char)val : x[i]));
    CHECK(ok, "set"); REACH("done");
}
void H_swap(void) {
    size_t n = vh_split(0); unsigned char a[20], b[20], x[20], y[20]; int ok = 1, p, q; void *s = &p, *t = &q;
    for (size_t i = 0; i < 20; i++) { unsigned char v = vh_u8(), w = vh_u8(); a[i] = x[i] = v; b[i] = y[i] = w; }
    vt_gswap(a + 1, b + 2, n);
    for (size_t i = 0; i < 20; i++) ok = ok & (a[i] == (i >= 1 && i < 1 + n ? y[i + 1] : x[i])) & (b[i] == (i >= 2 && i < 2 + n ? x[i - 1] : y[i]));
    CHECK(ok, "exchanged and nothing else"); CHECK(vh_live() == 0, "no leak");
    vt_pswap(&s, &t); CHECK(s == &q && t == &p, "pointers exchanged"); REACH("done");
}
void H_status(void) {
    uint32_t e = vh_u32(); ASSUME(e <= INT32_MAX); const char *z = vt_status_to_str((enum VitaStatus)e);
    CHECK((z != NULL) == (e < VT_STATUS_COUNT), "a name for every status and for nothing else");
    if (z) { CHECK(z[0] == 'V' && z[1] == 'T' && z[2] == '_', "a status name"); REACH("name"); }
}
/* the same on numbers that need more than 32 bits */
void H_big(void) {
    size_t a = vh_split(0), S = vh_split(1), b = vh_range(1, 9); uint64_t A = (uint64_t)a << S, B = (uint64_t)b << S;
    static const uint8_t g[10] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; size_t best = 0;
    for (size_t i = 1; i < 10; i++) if ((uint8_t)a % i == 0 && (uint8_t)b % i == 0) best = g[i];
    CHECK(vt_math_gcd((int64_t)A, (int64_t)B) == (int64_t)((uint64_t)best << S), "gcd of large numbers"); REACH("gcd");
}
