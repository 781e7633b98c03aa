// C21: the decimal form of a floating-point number's bits (the conversion float.cpp takes as given): it reads back to the same number, no shorter decimal does, and it
// is the closest of the shortest ones. The exponent is concrete (chosen), part of the significand's bits symbolic.
#ifndef TT_
#define TT_ double
#endif
#include "sym.h"
#include <cstdint>
#include <cstring>
#include <strf.hpp>
#include <utility>
#include <cstdlib>
#include <cstdio>
#if defined(SYMX)
extern "C" int sym_is_symbolic(std::uint64_t);
#define SYMBOLIC(x) sym_is_symbolic(x)
#else
#define SYMBOLIC(x) false
#endif
typedef TT_ T; typedef std::uint64_t u64; typedef std::uint32_t u32;
static const int MB = sizeof(T) == 8 ? 52 : 23, EB = sizeof(T) == 8 ? 11 : 8, BIAS = (1 << (EB - 1)) - 1;
static int choose(int lo, int hi, const char* name) { return (int)sym_concretize(sym_range((u64)0, (u64)(hi - lo), name)) + lo; }
struct Big { static const int N = 64; u32 w[N]; int n; };
static void mulc(Big& b, u32 c) { u64 k = 0; for (int i = 0; i < b.n; ++i) { u64 v = (u64)b.w[i] * c + k; b.w[i] = (u32)v; k = v >> 32; } if (b.n < Big::N) b.w[b.n++] = (u32)k; }
// a * p (p concrete)
static void mul(Big& o, u64 a, const Big& p) {
    u64 lo = (u32)a, hi = a >> 32; o.n = p.n + 2; for (int i = 0; i < o.n; ++i) o.w[i] = 0;
    u64 k = 0; for (int i = 0; i < p.n; ++i) { u64 v = lo * p.w[i] + o.w[i] + k; o.w[i] = (u32)v; k = v >> 32; } o.w[p.n] = (u32)k;
    k = 0; for (int i = 0; i < p.n; ++i) { u64 v = hi * p.w[i] + o.w[i + 1] + k; o.w[i + 1] = (u32)v; k = v >> 32; } o.w[p.n + 1] = (u32)k;
}
static void pow5(Big& p, int y) { p.n = 1; p.w[0] = 1; for (; y >= 13; y -= 13) { mulc(p, 1220703125u); while (p.n > 1 && !p.w[p.n - 1]) --p.n; } for (; y > 0; --y) { mulc(p, 5); while (p.n > 1 && !p.w[p.n - 1]) --p.n; } }
static void shl(Big& p, int s) { for (; s >= 31; s -= 31) { mulc(p, 1u << 31); while (p.n > 1 && !p.w[p.n - 1]) --p.n; } if (s > 0) { mulc(p, 1u << s); while (p.n > 1 && !p.w[p.n - 1]) --p.n; } }
// the sign of a*2^x - b*10^y, as "less" and "equal"
struct Cmp { bool lt, eq; };
struct Scale { Big pa, pb; };    // factors of a and of b
static void scale(Scale& s, int x, int y) { pow5(s.pa, y < 0 ? -y : 0); pow5(s.pb, y > 0 ? y : 0); int c = x - y; if (c > 0) shl(s.pa, c); else shl(s.pb, -c); }
static Cmp cmp(const Scale& s, u64 a, u64 b) {
    Big A, B; mul(A, a, s.pa); mul(B, b, s.pb); int n = A.n > B.n ? A.n : B.n; u32 eq = 0; u64 br = 0;
    for (int i = 0; i < n; ++i) { u64 x = i < A.n ? A.w[i] : 0, y = i < B.n ? B.w[i] : 0; u64 d = x - y - br; br = (d >> 32) & 1; eq |= (u32)d; }
    return Cmp{br != 0, eq == 0};
}
extern "C" void sym_main() {
    int lo = CFG("blo", 1023), n = CFG("bn", 0), step = CFG("bstep", 1), nlow = CFG("low", 8), nhigh = CFG("high", 0), pat = CFG("pat", 0);
    int be = lo + choose(0, n, "exponent") * step; int p = pat < 0 ? choose(0, -pat - 1, "pattern") : pat;
    static const u64 pats[] = {0, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0x8000000000000ull, 0x921FB54442D18ull, 0x6A09E667F3BCDull, 0x5BF0A8B145769ull, 0x3333333333333ull};
    u64 m = pats[p] >> (52 - MB); if (CFG("odd", 0)) m ^= (u64)0x123456789ABCD >> (52 - MB);
    u64 all = ((u64)1 << MB) - 1, sl = nlow ? ((u64)1 << nlow) - 1 : 0, sh = nhigh ? all & ~(all >> nhigh) : 0; m &= ~(sl | sh);
    if (nlow) m |= sym_value((unsigned)nlow, "low bits"); if (nhigh) m |= sym_value((unsigned)nhigh, "high bits") << (MB - nhigh);
    if (be == 0) sym_assume(m != 0);
    u64 f = be ? m | ((u64)1 << MB) : m; int e = (be ? be : 1) - BIAS - MB;
    bool narrow = false; if (be > 1) { if (CFG("zerom", 0)) { sym_assume(m == 0); narrow = true; sym_cover("power of two"); } else sym_assume(m != 0); }
    auto r = strf::detail::jkj::dragonbox::to_decimal<T>(be, (std::conditional<sizeof(T) == 8, std::int64_t, std::int32_t>::type)m);
    u64 D = r.significand; int k = (int)(std::int64_t)sym_concretize((u64)(std::int64_t)(int)r.exponent);
    // in units of 2^(e-2)
    u64 V = 4 * f, L = narrow ? V - 1 : V - 2, R = V + 2; bool even = (m & 1) == 0; Scale s; scale(s, e - 2, k);
    sym_check(D != 0, "not zero"); 
    Cmp cl = cmp(s, L, D), cr = cmp(s, R, D);
    sym_check(cl.lt | (cl.eq & even), "reads back to the number: not below its range"); sym_check((!cr.lt & !cr.eq) | (cr.eq & even), "reads back to the number: not above its range");
    u64 q; if (SYMBOLIC(D)) { q = sym_value(60, "tenth"); u64 dg = sym_range((u64)1, (u64)9, "last digit"); sym_assume(q * 10 + dg == D); } else { sym_check(D % 10 != 0, "no trailing zeros"); q = D / 10; } Cmp ql = cmp(s, L, q * 10), qr = cmp(s, R, q * 10 + 10);
    sym_check(!(ql.lt | (ql.eq & even)), "no shorter decimal below"); sym_check(!((!qr.lt & !qr.eq) | (qr.eq & even)), "no shorter decimal above");
    // closest: a neighbour that reads back too is not closer (2v - (D + (D+-1)) compared with zero)
    Cmp c1 = cmp(s, 2 * V, 2 * D - 1), c2 = cmp(s, 2 * V, 2 * D + 1), dl = cmp(s, L, D - 1), dr = cmp(s, R, D + 1);
    bool lin = dl.lt | (dl.eq & even), rin = (!dr.lt & !dr.eq) | (dr.eq & even);
    sym_check(!lin | !c1.lt, "the one below is not closer"); sym_check(!rin | c2.lt | c2.eq, "the one above is not closer");
    sym_check(!lin | !c1.eq | ((D & 1) == 0), "tie"); sym_check(!rin | !c2.eq | ((D & 1) == 0), "tie");
    sym_cover("decimal"); sym_trace(D); sym_trace((u64)(std::int64_t)k);
}
