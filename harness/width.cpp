// width_t arithmetic against exact integer arithmetic. cfg: op
#include "uni.h"
#include <strf/width_t.hpp>
using strf::width_t; typedef std::int64_t i64; typedef std::int32_t i32;
static const i64 MX = 0x7FFFFFFF, MN = -MX - 1;
static i64 clamp(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
static i64 sat(i64 v) { return clamp(v, MN, MX); }
static width_t W(i64 v) { return width_t::from_underlying((i32)v); }
static i64 U(width_t w) { return w.underlying_value(); }
static i64 in32(const char* n) { return (i64)(i32)(std::uint32_t)sym_value(32, n); }
template <class T> static T any(const char* n) { return (T)sym_value(sizeof(T) * 8, n); }
static int sgn(i64 v) { return v < 0 ? -1 : v > 0; }
template <class T> static i64 units(T x) { // x * 65536 saturated far outside the range, as an exact stand-in
    if (std::is_signed<T>::value) return clamp((i64)x, -(1 << 18), 1 << 18) * 65536; return (i64)(x > (T)(sizeof(T) > 2 ? 1 << 18 : 0xFFFF) ? (T)(1 << 18) : x) * 65536; }
template <class T> static void ctor() { T x = any<T>("x"); width_t w(x); i64 e = sat(units(x)); sym_check(U(w) == e, "constructor from an integer"); sym_trace(U(w)); if (e != units(x)) sym_cover("saturated"); }
template <class T> static void cast() { T x = any<T>("x"); width_t w = width_t::sat_cast(x); sym_check(U(w) == sat(units(x)), "sat_cast"); sym_trace(U(w)); }
template <class T> static void addsub() { i64 v = in32("v"); T x = any<T>("x");
    sym_check(U(strf::sat_add(W(v), x)) == sat(v + units(x)), "sat_add integer"); sym_check(U(strf::sat_add(x, W(v))) == sat(v + units(x)), "sat_add integer (reversed)"); sym_check(U(strf::sat_sub(W(v), x)) == sat(v - units(x)), "sat_sub integer"); sym_trace(U(strf::sat_sub(W(v), x))); }
template <class T> static void mul() { i64 v = in32("v"); T x = any<T>("x"); if (CFG("small", 0)) sym_assume(sizeof(T) < 4 || x < (T)4000);
    if (std::is_signed<T>::value && CFG("small", 0)) sym_assume((i64)x > -4000);
    bool fits = std::is_signed<T>::value ? (i64)x >= MN && (i64)x <= MX : sizeof(T) < 4 || x <= (T)MX; i64 e;
    i64 p = sizeof(T) == 8 && !fits ? 0 : sizeof(T) < 4 ? v * ((i64)x * 65536) / 65536 : v * (i64)x, far = (v < 0) != (std::is_signed<T>::value && (i64)x < 0) ? MN : MX;   // saturation by the sign rule: the solver need not multiply to know the sign
    if (sizeof(T) < 4) e = sat(p); else if (sizeof(T) == 4 || fits) e = p >= MN && p <= MX ? p : far; else e = v == 0 ? 0 : far;
    sym_check(U(strf::sat_mul(W(v), x)) == e, "sat_mul integer"); sym_check(U(strf::sat_mul(x, W(v))) == e, "sat_mul integer (reversed)"); sym_trace(U(strf::sat_mul(W(v), x))); }
template <class T> static void cmp() { i64 v = in32("v"); T x = any<T>("x"); int e = sgn(v - units(x)); auto c = strf::compare(W(v), x); sym_check((c > 0) - (c < 0) == e, "compare"); auto d = strf::compare(x, W(v)); sym_check((d > 0) - (d < 0) == -e, "compare (reversed)"); sym_trace((c > 0) - (c < 0)); }
extern "C" void sym_main() {
    switch (CFG("op", 0)) {
    case 0: ctor<std::int16_t>(); break; case 1: ctor<std::uint16_t>(); break; case 2: ctor<std::int32_t>(); break; case 3: ctor<std::uint32_t>(); break; case 4: ctor<std::int64_t>(); break; case 5: ctor<std::uint64_t>(); break;
    case 6: cast<std::int32_t>(); break; case 7: cast<std::uint32_t>(); break; case 8: cast<std::int64_t>(); break; case 9: cast<std::uint64_t>(); break;
    case 10: addsub<std::int16_t>(); break; case 11: addsub<std::int32_t>(); break; case 12: addsub<std::int64_t>(); break;
    case 13: mul<std::int16_t>(); break; case 14: mul<std::int32_t>(); break; case 15: mul<std::uint32_t>(); break; case 16: mul<std::int64_t>(); break; case 17: mul<std::uint64_t>(); break;
    case 18: cmp<std::int16_t>(); break; case 19: cmp<std::uint16_t>(); break; case 20: cmp<std::int32_t>(); break; case 21: cmp<std::uint32_t>(); break; case 22: cmp<std::int64_t>(); break; case 23: cmp<std::uint64_t>(); break;
    case 24: { // two widths
        i64 a = in32("a"), b = in32("b"); width_t x = W(a), y = W(b);
        sym_check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison of widths");
        sym_check(U(strf::sat_add(x, y)) == sat(a + b), "sat_add"); sym_check(U(strf::sat_sub(x, y)) == sat(a - b), "sat_sub");
        if (a + b == sat(a + b)) { sym_check(U(x + y) == a + b, "operator+"); width_t z = x; z += y; sym_check(U(z) == a + b, "operator+="); }
        if (a - b == sat(a - b)) { sym_check(U(x - y) == a - b, "operator-"); width_t z = x; z -= y; sym_check(U(z) == a - b, "operator-="); }
        sym_trace(U(strf::sat_add(x, y))); break; }
    case 25: { // one width: rounding and predicates
        i64 a = in32("a"); width_t x = W(a); i64 fl = a >= 0 ? a / 65536 : -((-a + 65535) / 65536); i64 ce = -(-a >= 0 ? -a / 65536 : -((a + 65535) / 65536));
        i64 frac = a - fl * 65536; i64 rn = frac < 0x8000 ? fl : frac > 0x8000 ? fl + 1 : a >= 0 ? fl : fl + 1;   // halves go towards zero (tests/width_t.cpp)
        sym_check(x.floor() == fl, "floor"); sym_check(x.ceil() == ce, "ceil"); sym_check(x.round() == rn, "round"); sym_check(x.non_negative_floor() == (a > 0 ? fl : 0), "non_negative_floor"); sym_check(x.non_negative_ceil() == (a > 0 ? ce : 0), "non_negative_ceil");
        sym_check(x.zero() == (a == 0) && x.not_zero() == (a != 0) && x.gt_zero() == (a > 0) && x.ge_zero() == (a >= 0) && x.lt_zero() == (a < 0) && x.le_zero() == (a <= 0), "predicates");
        if (a != MN) sym_check(U(-x) == -a, "negation"); sym_check(U(+x) == a, "operator+"); sym_trace(x.round()); sym_trace(x.ceil()); break; }
    case 26: { i64 a = in32("a"), b = in32("b"); i64 p = a * b; i64 e = sat(p / 65536); sym_check(U(strf::sat_mul(W(a), W(b))) == e, "sat_mul"); if (p % 65536 == 0 && e == p / 65536) sym_check(U(W(a) * W(b)) == e, "operator*"); sym_trace(U(strf::sat_mul(W(a), W(b)))); break; }
    case 27: { // division, truncating towards zero like the multiplication
        i64 a = in32("a"), b = in32("b"); sym_assume(b != 0); i64 e = a * 65536 / b; sym_assume(e >= MN && e <= MX); sym_check(U(W(a) / W(b)) == e, "operator/"); width_t z = W(a); z /= W(b); sym_check(U(z) == e, "operator/="); sym_trace(U(z)); break; }
    case 28: { static const int D[] = {1, -1, 2, -3, 5, 65536, -65536, 131072, 163840, -98304, 65535, 2147483647}; i64 a = in32("a"), b = D[CFG("d", 0)]; i64 e = a * 65536 / b; sym_assume(e >= MN && e <= MX); sym_check(U(W(a) / W(b)) == e, "operator/"); sym_trace(U(W(a) / W(b))); break; }
    case 29: { // width and int16_t operators
        i64 a = in32("a"); std::int16_t s = any<std::int16_t>("s"); i64 b = (i64)s * 65536; width_t x = W(a);
        sym_check((x == s) == (a == b) && (x != s) == (a != b) && (x < s) == (a < b) && (x <= s) == (a <= b) && (x > s) == (a > b) && (x >= s) == (a >= b), "width op int16_t");
        sym_check((s == x) == (a == b) && (s != x) == (a != b) && (s < x) == (b < a) && (s <= x) == (b <= a) && (s > x) == (b > a) && (s >= x) == (b >= a), "int16_t op width");
        if (a + b == sat(a + b)) sym_check(U(x + s) == a + b && U(s + x) == a + b, "operator+ int16_t"); if (a - b == sat(a - b)) sym_check(U(x - s) == a - b, "operator- int16_t"); if (b - a == sat(b - a)) sym_check(U(s - x) == b - a, "int16_t - width");
        i64 p = a * b / 65536; if (p == sat(p)) sym_check(U(x * s) == p && U(s * x) == p, "operator* int16_t"); sym_trace(x < s); break; }
    case 30: { i64 a = in32("a"); std::int16_t s = any<std::int16_t>("s"); sym_assume(s != 0); i64 q = a * 65536 / ((i64)s * 65536); sym_assume(q == sat(q)); sym_check(U(W(a) / s) == q, "operator/ int16_t"); sym_trace(U(W(a) / s)); break; }
    }
}
