/* C17: row-major index mapping */
#include "vh.h"
#include "vita/container/common.h"
#ifndef BITS
#define BITS 20
#endif
//@ H_2d unwind=4 D="BITS=20" split="N=1:17 W=0:0" | D="BITS=32" split="N=1:100 W=0:0"
//@ H_2dwide unwind=4 timeout=240 | timeout=3000
//@ H_3d unwind=4 D="BITS=16" split="N=1:7 R=1:7" where="N*R<=12 or N==R" | D="BITS=28" split="N=1:12 R=1:12"
//@ H_2dbig unwind=4 split="P=0:4" timeout=240
//@ H_3dbig unwind=4 split="P=0:5" timeout=240
void H_2d(void) {
    size_t n = vh_split(0), row = vh_u64(), col = vh_range(0, 255), r = 0, c = 0;
    ASSUME(col < n); ASSUME(row < ((size_t)1 << BITS));
    size_t i = vt_index_2d_to_1d(row, col, n);
    CHECK(i == row * n + col, "row-major");
    vt_index_1d_to_2d(&r, &c, i, n);
    CHECK(r == row && c == col, "round trip"); REACH("done");
    size_t idx = vh_u64(); ASSUME(idx < ((size_t)1 << BITS));
    vt_index_1d_to_2d(&r, &c, idx, n);
    CHECK(c < n && vt_index_2d_to_1d(r, c, n) == idx, "inverse for every index");
}
/* the width is symbolic too */
void H_2dwide(void) {
    size_t n = vh_range(1, 63), row = vh_range(0, 63), col = vh_range(0, 63), r = 0, c = 0; ASSUME(col < n);
    size_t i = vt_index_2d_to_1d(row, col, n);
    CHECK(i == row * n + col, "row-major");
    vt_index_1d_to_2d(&r, &c, i, n);
    CHECK(r == row && c == col, "round trip"); REACH("done");
}
void H_3d(void) {
    size_t n = vh_split(0), R = vh_split(1), row = vh_range(0, 255), col = vh_range(0, 255), d = vh_u64(), r = 0, c = 0, e = 0;
    ASSUME(col < n && row < R); ASSUME(d < ((size_t)1 << BITS));
    size_t i = vt_index_3d_to_1d(row, col, d, R, n);
    CHECK(i == d * (n * R) + row * n + col, "layer by layer, row-major");
    vt_index_1d_to_3d(&r, &c, &e, i, R, n);
    CHECK(r == row && c == col && e == d, "round trip"); REACH("done");
    size_t idx = vh_u64(); ASSUME(idx < ((size_t)1 << BITS));
    vt_index_1d_to_3d(&r, &c, &e, idx, R, n);
    CHECK(r < R && c < n && vt_index_3d_to_1d(r, c, e, R, n) == idx, "inverse for every index");
}
/* large shapes: sizes from a table, all positions in them */
void H_2dbig(void) {
    static const size_t w[5] = {256, 65537, 65536, ((size_t)1 << 31) + 1, ((size_t)1 << 33) + 5};
    size_t n = w[vh_split(0)], row = vh_u64(), col = vh_u64(), r = 0, c = 0; ASSUME(col < n && row < 4096);
    size_t i = vt_index_2d_to_1d(row, col, n);
    CHECK(i == row * n + col, "row-major"); vt_index_1d_to_2d(&r, &c, i, n);
    CHECK(r == row && c == col, "round trip"); REACH("done");
}
void H_3dbig(void) {
    static const size_t w[6][2] = {{80000, 5}, {5, 80000}, {65537, 3}, {2, 1 << 20}, {300, 400}, {(size_t)1 << 33, 3}};
    size_t P = vh_split(0), R = w[P][0], n = w[P][1], row = vh_u64(), col = vh_u64(), d = vh_range(0, 255), r = 0, c = 0, e = 0; ASSUME(col < n && row < R);
    size_t i = vt_index_3d_to_1d(row, col, d, R, n);
    CHECK(i == d * (n * R) + row * n + col, "layer by layer, row-major"); vt_index_1d_to_3d(&r, &c, &e, i, R, n);
    CHECK(r == row && c == col && e == d, "round trip"); REACH("done");
}
