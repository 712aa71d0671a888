// Contracts of the floored-division helpers (src/common/idiv.hpp).
#include "yv.h"
#include <cassert>
#include "common_utils.hpp"
#include "idiv.hpp"
using namespace yask;
#define BIG ((int64_t)1 << 46)
// q = floor(a / b) for b > 0  <=>  b*q <= a < b*(q+1).
template <typename T> static void flr(T a, T b) {
    T q = idiv_flr<T>(a, b);
    yv_cover("idiv_flr returns");
    T r = a - q * b;
    yv_assert(r >= 0, "idiv_flr: quotient not above the exact quotient");
    yv_assert(r < b, "idiv_flr: quotient is the largest such integer");
}
template <typename T> static void mod(T a, T b) {
    T m = imod_flr<T>(a, b);
    yv_cover("imod_flr returns");
    yv_assert(m >= 0, "imod_flr: result not negative");
    yv_assert(m < b, "imod_flr: result below the modulus");
    T t = a % b; // C remainder, congruent to a.
    yv_assert((m == t) | (m == t + b), "imod_flr: result congruent to the dividend");
}
template <typename T> static void ceil_(T a, T b) {
    T q = ceil_idiv_flr<T>(a, b);
    T r = q * b - a;
    yv_assert((r >= 0) & (r < b), "ceil_idiv_flr: smallest integer not below the exact quotient");
}
template <typename T> static void rnd(T a, T b) {
    T u = round_up_flr<T>(a, b), d = round_down_flr<T>(a, b);
    yv_assert((u >= a) & (u - a < b), "round_up_flr: nearest multiple at or above");
    yv_assert((d <= a) & (a - d < b), "round_down_flr: nearest multiple at or below");
    yv_assert((u == d) | (u == d + b), "round_up_flr and round_down_flr bracket the argument");
    yv_assert(imod_flr<T>(u, b) == 0, "round_up_flr: a multiple of the modulus");
    yv_assert(imod_flr<T>(d, b) == 0, "round_down_flr: a multiple of the modulus");
}
#define IN64 idx_t a = yv_i64("a", -BIG, BIG), b = yv_i64("b", 1, BIG)
#define IN32 int a = (int)yv_i64("a", -(1 << 29), 1 << 29), b = (int)yv_i64("b", 1, 1 << 29)
extern "C" void h_idiv_flr() { IN64; flr<idx_t>(a, b); }
extern "C" void h_imod_flr() { IN64; mod<idx_t>(a, b); }
extern "C" void h_ceil_idiv_flr() { IN64; ceil_<idx_t>(a, b); }
extern "C" void h_round_flr() { IN64; rnd<idx_t>(a, b); }
extern "C" void h_idiv_flr_int() { IN32; flr<int>(a, b); }
extern "C" void h_imod_flr_int() { IN32; mod<int>(a, b); }
extern "C" void h_ceil_idiv_flr_int() { IN32; ceil_<int>(a, b); }
// Macro forms, for non-negative sizes and positive multiples.
extern "C" void h_round_macros() {
    idx_t n = yv_i64("n", 0, BIG), m = yv_i64("m", 1, BIG);
    idx_t c = CEIL_DIV(n, m), u = ROUND_UP(n, m), d = ROUND_DOWN(n, m);
    yv_cover("macros evaluated");
    yv_assert((c * m >= n) & (c * m - n < m), "CEIL_DIV: smallest integer not below the exact quotient");
    yv_assert(u == c * m, "ROUND_UP: nearest multiple at or above");
    yv_assert((d <= n) & (n - d < m), "ROUND_DOWN: nearest multiple at or below");
    yv_assert(d % m == 0, "ROUND_DOWN: a multiple");
}
