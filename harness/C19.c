/* C19: numbers and text convert into each other exactly */
#include "vh.h"
#include "vita/core/conv.h"
//@ H_print unwind=24 mode=X split="T=0:7 K=1:20 N=0:1" where="K<=(3,3,5,5,10,10,19,20)[T] and (N==0 or T%2==0) and K in (1,3,5,10,20)" | where="K<=(3,3,5,5,10,10,19,20)[T] and (N==0 or T%2==0)" timeout=3000
//@ H_parse unwind=16 mode=X split="T=0:7 L=0:4" | split="T=0:7 L=0:7" unwind=20
//@ H_range unwind=30 mode=X split="T=0:7 K=1:20 N=0:1" where="K<=(3,3,5,5,10,10,19,20)[T] and (N==0 or T%2==0) and K in (1,5,10,19)" | where="K<=(3,3,5,5,10,10,19,20)[T] and (N==0 or T%2==0)"
//@ H_small unwind=24 mode=X split="T=0:7 K=1:4"
//@ H_float unwind=12 mode=X split="T=0:2 L=0:4" | split="T=0:2 L=0:7" unwind=16
static const uint64_t p10[20] = {1u, 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u, 10000000000u, 100000000000u, 1000000000000u,
    10000000000000u, 100000000000000u, 1000000000000000u, 10000000000000000u, 100000000000000000u, 1000000000000000000u, 10000000000000000000u};
static const uint64_t maxv[8] = {INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX};
static void print(size_t T, char *b, size_t n, uint64_t m, int neg) {
    switch (T) {
    case 0: vt_conv_i8_to_str(b, n, (int8_t)(neg ? -m : m)); break; case 1: vt_conv_u8_to_str(b, n, (uint8_t)m); break;
    case 2: vt_conv_i16_to_str(b, n, (int16_t)(neg ? -m : m)); break; case 3: vt_conv_u16_to_str(b, n, (uint16_t)m); break;
    case 4: vt_conv_i32_to_str(b, n, (int32_t)(neg ? -m : m)); break; case 5: vt_conv_u32_to_str(b, n, (uint32_t)m); break;
    case 6: vt_conv_i64_to_str(b, n, (int64_t)(neg ? -m : m)); break; default: vt_conv_u64_to_str(b, n, m);
    }
}
static uint64_t parse(size_t T, const char *z) {  /* sign-extended */
    switch (T) {
    case 0: return (uint64_t)(int64_t)vt_conv_str_to_i8(z); case 1: return vt_conv_str_to_u8(z); case 2: return (uint64_t)(int64_t)vt_conv_str_to_i16(z); case 3: return vt_conv_str_to_u16(z);
    case 4: return (uint64_t)(int64_t)vt_conv_str_to_i32(z); case 5: return vt_conv_str_to_u32(z); case 6: return (uint64_t)vt_conv_str_to_i64(z); default: return vt_conv_str_to_u64(z);
    }
}
/* magnitude with K digits, allowed for the type and sign */
static uint64_t mag(size_t T, size_t K, size_t N) {
    uint64_t m = vh_u64(); ASSUME((K == 1 || m >= p10[K - 1]) && (K == 20 || m < p10[K < 20 ? K : 19]) && m <= maxv[T] + N && (!N || m > 0));
    return m;
}
void H_print(void) {
    size_t T = vh_split(0), K = vh_split(1), N = vh_split(2); uint64_t m = mag(T, K, N); vh_fmt_digits = K;
    size_t n = K + N + 1; bool slack = vh_bool(); char *b = malloc(n + 4); ASSUME(b != NULL);
    for (size_t i = 0; i < n + 4; i++) b[i] = 'x';
    print(T, b, slack ? n + 3 : n, m, N);  /* a buffer of exactly the needed size will do */
    CHECK(!N || b[0] == '-', "sign"); uint64_t acc = 0; int ok = 1;
    for (size_t i = 0; i < K; i++) { char c = b[N + i]; ok = ok & (c >= '0' && c <= '9'); acc = acc * 10 + (uint64_t)(c - '0'); }
    CHECK(ok && b[K + N] == 0, "decimal digits, terminated");
    CHECK(acc == m && (K == 1 || b[N] != '0'), "the decimal representation");
    CHECK(b[n + 3] == 'x', "nothing beyond the buffer"); REACH("printed");
    CHECK(parse(T, b) == (N ? -m : m), "reading it back gives the number"); free(b);
}
/* every decimal text of a number of the type reads as that number */
void H_range(void) {
    size_t T = vh_split(0), K = vh_split(1), N = vh_split(2); char z[24]; uint64_t acc = 0; int ok = 1;
    if (N) z[0] = '-';
    for (size_t i = 0; i < K; i++) { char c = vh_char(); ok = ok & (c >= '0' && c <= '9') & (acc < 1844674407370955161u || (acc == 1844674407370955161u && c < '6')); acc = acc * 10 + (uint64_t)(c - '0'); z[N + i] = c; }
    z[N + K] = 0; ASSUME(ok && acc <= maxv[T] + N);
    CHECK(parse(T, z) == (N ? -acc : acc), "value of the text"); REACH("read");
}
/* any text: not a number reads as 0, a number with a fraction as its integral part */
void H_parse(void) {
    size_t T = vh_split(0), L = vh_split(1); char z[9]; for (size_t i = 0; i < L; i++) { z[i] = vh_char(); ASSUME(z[i] != 0); } z[L] = 0;
    int neg = L > 1 && z[0] == '-' && T % 2 == 0, num = 1, dot = 0; uint64_t acc = 0;
    for (size_t i = 0; i < L; i++) if (!(i == 0 && neg)) {
        int dg = z[i] >= '0' && z[i] <= '9'; num = num & (dg | (z[i] == '.')); dot = dot | !dg; if (!dot) acc = acc * 10 + (uint64_t)(z[i] - '0');
    }
    if (!num) acc = 0;
    ASSUME(acc <= maxv[T] + neg);
    CHECK(parse(T, z) == (neg ? -acc : acc), "value"); if (num) REACH("number"); else REACH("not a number");
}
/* a buffer that is too small is never written to */
static char *sb; static size_t sn; static void untouched(int code) { int ok = 1; for (size_t i = 0; i < sn; i++) ok = ok & (sb[i] == 'x'); CHECK(ok, "buffer untouched"); }
void H_small(void) {
    size_t T = vh_split(0), K = vh_split(1); if (K > (T < 2 ? 3u : 4u)) K = 3; uint64_t m = mag(T, K, 0); vh_fmt_digits = K;
    sn = vh_range(0, 4); ASSUME(sn <= K); char b[5]; sb = b; for (size_t i = 0; i < 5; i++) b[i] = 'x';
    vh_exit_ok = 1; vh_exit_hook = untouched;
    REACH("call"); print(T, b, sn, m, 0); CHECK(0, "a buffer that is too small is refused");
}
void H_float(void) {
    size_t T = vh_split(0), L = vh_split(1); char z[9]; for (size_t i = 0; i < L; i++) { z[i] = vh_char(); ASSUME(z[i] != 0); } z[L] = 0; int num = 1;
    for (size_t i = 0; i < L; i++) if (!(i == 0 && L > 1 && z[0] == '-')) num = num & ((z[i] >= '0' && z[i] <= '9') | (z[i] == '.'));
    if (T == 0) { float x = vt_conv_str_to_f(z), y = strtof(z, NULL); CHECK(num ? x == y || y != y : x == 0, "value"); }
    else if (T == 1) { double x = vt_conv_str_to_d(z), y = strtod(z, NULL); CHECK(num ? x == y || y != y : x == 0, "value"); }
    else { real x = vt_conv_str_to_r(z), y = strtold(z, NULL); CHECK(num ? x == y || y != y : x == 0, "value"); }
    if (num) REACH("number"); else REACH("not a number");
}
