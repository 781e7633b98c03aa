// C21: floating-point numbers. MODE_ 0: finite numbers given by the digits of their shortest decimal form; 1: hexadecimal, all bits; 2: infinities and NaNs;
// 3: the shortest decimal form itself (dragonbox.cpp has that). The conversion from bits to the shortest decimal is replaced under symx by the number the digits
// were chosen for (natively the number is parsed from those digits and the real conversion runs).
#ifndef MODE_
#define MODE_ 0
#endif
#ifndef TT_
#define TT_ double
#endif
#ifndef CC_
#define CC_ char
#endif
#ifndef KK_
#define KK_ 2     // 0 plain, 1 alignment only, 2 without punct, 3 with punct, 4 set_float_format
#endif
#include <cstdint>
#include "sym.h"
static std::uint64_t g_m10; static int g_e10; static std::uint64_t g_exp, g_man; static bool g_set = false;
#if defined(SYMX)
#include <strf/detail/dragonbox.hpp>
namespace strf { namespace detail { namespace jkj { namespace dragonbox {
template <> inline return_type<double> to_decimal<double>(int e, std::int64_t m) { sym_check(g_set && (std::uint64_t)e == g_exp && (std::uint64_t)m == g_man, "the number's own bits are converted"); return_type<double> r{}; r.significand = g_m10; r.exponent = g_e10; return r; }
template <> inline return_type<float> to_decimal<float>(int e, std::int32_t m) { sym_check(g_set && (std::uint64_t)e == g_exp && (std::uint64_t)m == g_man, "the number's own bits are converted"); return_type<float> r{}; r.significand = (std::uint32_t)g_m10; r.exponent = g_e10; return r; }
}}}}
#endif
#include "printx.h"
#include <utility>
#include <cstring>
#include <cstdio>
#include <cstdlib>
using namespace px;
typedef TT_ T; typedef CC_ C; typedef Text<C, 800> X;
enum { GEN, FIX, SCI, HEX };
static const int MB = sizeof(T) == 8 ? 52 : 23, EB = sizeof(T) == 8 ? 11 : 8;
struct Dec { int n = 0; int d[24]; int e10 = 0; int E() const { return n + e10 - 1; } };
struct Fmt { int nota = GEN, p = -1; bool sp = false; char sign = 0; bool punct = false; u32 sep = ',', dp = '.'; bool sepvalid = true, dpvalid = true; int ng = 0; int g[6]; bool rep = false; int pad0 = 0; int lc = 0; Align a{false, U' ', 0, 1}; };
static T from_bits(bool neg, std::uint64_t e, std::uint64_t m) {
    if (sizeof(T) == 8) { std::uint64_t b = ((std::uint64_t)neg << 63) | (e << 52) | m; T t; std::memcpy(&t, &b, 8); return t; }
    std::uint32_t b = ((std::uint32_t)neg << 31) | ((std::uint32_t)e << 23) | (std::uint32_t)m; T t; std::memcpy(&t, &b, 4); return t;
}
#ifdef WIN1252
typedef strf::windows_1252_t<C> Cs;
#endif
static void put(X& o, u32 c) {   // a character other than ASCII in the charset
#ifdef WIN1252
    if (c >= 0x80) { sym_check(c == 0x20AC || c == 0x2026 || c == 0xB7, "harness character"); o.u[o.n++] = static_cast<C>(c == 0x20AC ? 0x80 : c == 0x2026 ? 0x85 : 0xB7); ++o.w; return; }
#endif
    o.ch(c);
}
static bool sepat(const Fmt& f, int left) {
    if (!f.punct || !f.sepvalid) return false;
    int pos = 0; for (int i = 0; i < f.ng; ++i) { pos += f.g[i]; if (left == pos) return true; if (i + 1 == f.ng && f.rep && left > pos && (left - pos) % f.g[i] == 0) return true; }
    return false;
}
// the first k digits (k may be 0 or less), rounded half to even; the exponent grows when 99.. becomes 100..; true if digits were dropped
static bool round_to(Dec& x, int k) {
    if (k >= x.n) return false;
    int e = x.e10 + (x.n - k);
    bool up = k >= 0 && (x.d[k < 0 ? 0 : k] > 5 || (x.d[k] == 5 && (x.n - k > 1 || (k > 0 && (x.d[k - 1] & 1)))));
    if (k < 0) { x.n = 0; x.e10 = e; return true; }
    x.n = k; x.e10 = e;
    if (up) {
        int i = k - 1; for (; i >= 0; --i) { if (x.d[i] == 9) x.d[i] = 0; else { ++x.d[i]; break; } }
        if (i < 0) { for (int j = k; j > 0; --j) x.d[j] = 0; x.d[0] = 1; x.n = k + 1; }
    }
    return true;
}
static bool strip = false, kf3 = false;     // strip: trailing zeros were there to be kept (KF3)
static void point(X& o, const Fmt& f) { u32 c = f.punct ? f.dp : (u32)'.'; if (f.punct && !f.dpvalid) {
#ifdef WIN1252
    c = '?';
#else
    c = 0xFFFD;
#endif
  } put(o, c); }
// integral digits: those of 10^E and above. z: digits after the point that are to be there (-1: those the number has)
static void fixed_text(X& o, const Fmt& f, const Dec& x, int fracs) {
    int E = x.n ? x.E() : -1, ip = E >= 0 ? E + 1 : 1;
    for (int i = 0; i < ip; ++i) { if (i > 0 && sepat(f, ip - i)) put(o, f.sep); int j = E >= 0 ? i : -1; o.ch(j >= 0 && j < x.n ? (u32)('0' + x.d[j]) : (u32)'0'); }
    if (fracs > 0 || f.sp) point(o, f);
    for (int i = 0; i < fracs; ++i) { int j = E >= 0 ? E + 1 + i : i - (-E - 1); o.ch(j >= 0 && j < x.n ? (u32)('0' + x.d[j]) : (u32)'0'); }
}
static void exponent(X& o, const Fmt& f, int E) { o.ch(f.lc == 1 ? 'E' : 'e'); o.ch(E < 0 ? '-' : '+'); int a = E < 0 ? -E : E; if (a > 99) o.ch('0' + a / 100); o.ch('0' + a / 10 % 10); o.ch('0' + a % 10); }
static void sci_text(X& o, const Fmt& f, const Dec& x, int fracs) {
    o.ch(x.n ? '0' + x.d[0] : '0'); if (fracs > 0 || f.sp) point(o, f);
    for (int i = 1; i <= fracs; ++i) o.ch(i < x.n ? (u32)('0' + x.d[i]) : (u32)'0');
    exponent(o, f, x.n ? x.E() : 0);
}
static void number(X& o, const Fmt& f, Dec x) {
    int p = f.p; strip = false; bool zero = x.n == 1 && x.e10 == 0 && x.d[0] == 0;
    if (f.nota == FIX) {
        if (p >= 0) { round_to(x, x.E() + 1 + p); fixed_text(o, f, x, p); }
        else fixed_text(o, f, x, x.e10 < 0 ? -x.e10 : 0);
    } else if (f.nota == SCI) {
        if (p >= 0) { int n0 = p + 1; if (round_to(x, n0) && x.n > n0) { x.n = n0; ++x.e10; } sci_text(o, f, x, p); }
        else sci_text(o, f, x, x.n - 1);
    } else if (p < 0) {
        X a, b; fixed_text(a, f, x, x.e10 < 0 ? -x.e10 : 0); sci_text(b, f, x, x.n - 1);
        if (b.w < a.w) { sym_cover("general: scientific"); sci_text(o, f, x, x.n - 1); } else fixed_text(o, f, x, x.e10 < 0 ? -x.e10 : 0);
    } else {
        int P = p ? p : 1; bool cut = false; int n0 = x.n;
        if (round_to(x, P)) { cut = true; if (x.n > P) { x.n = P; ++x.e10; n0 = 0; } }
        int e = x.E(); bool sci = !zero && (e < -4 || e >= P); int nd = P;   // digits to show
        bool carried = cut && n0 == 0;
        if (!f.sp || (kf3 && cut && !carried)) { nd = P < x.n ? P : x.n; int least = sci ? 1 : e < 0 ? 1 : e + 1; bool s0 = nd > 0; while (nd > least && x.d[nd - 1] == 0) { --nd; if (f.sp) strip = true; } (void)s0; if (nd < least) nd = least; }
        if (cut && f.sp && !carried && !kf3) { int least = sci ? 1 : e < 0 ? 1 : e + 1; if (P > least && x.d[P - 1] == 0) strip = true; }
        if (sci) sci_text(o, f, x, nd - 1); else fixed_text(o, f, x, nd - 1 - e > 0 ? nd - 1 - e : 0);
    }
}
static void hex_text(X& o, const Fmt& f, const int* h, int nz, bool sub, int E, int one, int fracs) {   // nz significant hexadecimal digits in h
    o.ch(one ? '1' : '0'); (void)sub; (void)nz; if (fracs > 0 || f.sp) point(o, f);
    for (int i = 0; i < fracs; ++i) { int d = i < 13 ? h[i] : 0; o.ch((u32)(d < 10 ? '0' + d : (f.lc == 0 ? 'a' : 'A') + d - 10)); }
    o.ch(f.lc == 1 ? 'P' : 'p'); o.ch(E < 0 ? '-' : '+'); int a = E < 0 ? -E : E; if (a > 999) o.ch('0' + a / 1000); if (a > 99) o.ch('0' + a / 100 % 10); if (a > 9) o.ch('0' + a / 10 % 10); o.ch('0' + a % 10);
}
// sign, 0x, zeros, number; then the fill
static void layout(X& out, const Fmt& f, bool neg, bool hexa, bool finite, const X& num) {
    char sg = neg ? '-' : f.sign; X rest; int w = num.w + (sg != 0) + (hexa ? 2 : 0);
    if (sg && sg != ' ') rest.ch((unsigned char)sg);
    if (hexa) { rest.ch('0'); rest.ch(f.lc == 1 ? 'X' : 'x'); }
    if (finite && f.pad0 > w) rest.ch('0', f.pad0 - w);
    for (int i = 0; i < num.n; ++i) rest.u[rest.n++] = num.u[i];
    rest.w += num.w;
    int width = f.a.on ? f.a.width : 0; if (!finite && f.pad0 > width) width = f.pad0;
    int own = rest.w + (sg == ' '), fc = width > own ? width - own : 0, al = f.a.on ? f.a.al : 1, l = al == 0 ? 0 : al == 1 ? fc : fc / 2; u32 fill = f.a.on ? f.a.fill : U' ';
    if (sg == ' ') ++l;
    for (int i = 0; i < l; ++i) put(out, fill); for (int i = 0; i < rest.n; ++i) out.u[out.n++] = rest.u[i]; out.w += rest.w; for (int i = fc + (sg == ' ') - l; i > 0; --i) put(out, fill);
}
template <class A> static void run(const X& e, const Fmt& f, int what, int maxroom, const A& arg, const char* kfmsg = nullptr, const X* doc = nullptr) {
    strf::lettercase lcase = f.lc == 0 ? strf::lowercase : f.lc == 1 ? strf::uppercase : strf::mixedcase;
    if (kfmsg) {   // a recorded finding: what is documented is not printed; what is printed instead is checked below
        Sink<C, 6, 800> s(64, 0); strf::to(static_cast<strf::destination<C>&>(s)).with(lcase)(arg); s.finish();
        bool same = s.n == doc->n; if (same) for (int i = 0; i < doc->n; ++i) same = same && s.out[i] == doc->u[i];
        if (same) return;
        sym_known(false, kfmsg);
    }
    auto con = strf::constrain<std::is_floating_point>(lcase);
#if KK_ == 3 || KK_ == 4
    strf::digits_grouping g; int q[7]; for (int i = 0; i < f.ng; ++i) q[i] = f.g[i]; q[f.ng] = -1; int m = f.rep ? f.ng : f.ng + 1;
    if (f.ng) switch (m) { case 1: g = strf::digits_grouping(q[0]); break; case 2: g = strf::digits_grouping(q[0], q[1]); break; case 3: g = strf::digits_grouping(q[0], q[1], q[2]); break; case 4: g = strf::digits_grouping(q[0], q[1], q[2], q[3]); break; case 5: g = strf::digits_grouping(q[0], q[1], q[2], q[3], q[4]); break; default: g = strf::digits_grouping(q[0], q[1], q[2], q[3], q[4], q[5]); }
    auto n10 = strf::numpunct<10>(g).thousands_sep((char32_t)f.sep).decimal_point(f.nota == HEX ? U'~' : (char32_t)f.dp);
    auto n16 = strf::numpunct<16>(g).thousands_sep((char32_t)f.sep).decimal_point(f.nota == HEX ? (char32_t)f.dp : U'~');
  #ifdef WIN1252
    px::check(e, what, maxroom, true, strf::pack(Cs{}, lcase, n10, n16), arg); (void)con;
  #else
    px::check(e, what, maxroom, true, strf::pack(lcase, n10, n16), arg); (void)con;
  #endif
#else
    px::check(e, what, maxroom, true, strf::pack(con), arg);
#endif
}
template <class A> static void printed(const X& e, const Fmt& f, int what, int maxroom, T v, const char* kf, const X* doc, A) {
#if KK_ == 0
    run(e, f, what, maxroom, v, kf, doc);
#elif KK_ == 1
    if (!f.a.on) run(e, f, what, maxroom, strf::fmt(v)); else if (f.a.fill == U' ' && f.a.al == 0) run(e, f, what, maxroom, strf::fmt(v) < (strf::width_t)f.a.width); else run(e, f, what, maxroom, strf::fmt(v).set_alignment_format(afmt(f.a)));
#else
    auto al = [&](const auto& x) { if (f.a.on) run(e, f, what, maxroom, x.set_alignment_format(afmt(f.a)), kf, doc); else run(e, f, what, maxroom, x, kf, doc); };
  #if KK_ == 4
    strf::float_format ff; ff.precision = f.p; ff.pad0width = f.pad0; ff.notation = f.nota == GEN ? strf::float_notation::general : f.nota == FIX ? strf::float_notation::fixed : f.nota == SCI ? strf::float_notation::scientific : strf::float_notation::hex;
    ff.sign = f.sign == 0 ? strf::showsign::negative_only : f.sign == '+' ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive; ff.showpoint = f.sp; ff.punctuate = f.punct;
    al(strf::fmt(v).set_float_format(ff));
  #else
    auto c = strf::fmt(v).pad0(f.pad0);
    if (f.nota == FIX) c = std::move(c).fixed(); else if (f.nota == SCI) c = std::move(c).sci(); else if (f.nota == HEX) c = std::move(c).hex(); else c = std::move(c).gen();
    if (f.p != -1) c = std::move(c).p(f.p);
    if (f.sp) c = *std::move(c);
    if (f.sign == '+') c = +std::move(c); else if (f.sign == ' ') c = ~std::move(c);
    #if KK_ == 3
    al(!std::move(c));
    #else
    al(c);
    #endif
  #endif
#endif
}
#ifndef CHAIN
static void options(Fmt& f) {
    int signs = CFG("signs", 0), aligns = CFG("aligns", 0), grp = CFG("grp", 0), seps = CFG("seps", 0), lc = CFG("lc", 0), pads = CFG("pads", 0);
    if (signs) { static const char sg[] = {0, '+', ' '}; f.sign = sg[choose(0, 2, "sign")]; }
    f.lc = lc ? choose(0, 2, "lettercase") : CFG("lcase", 0);
    if (pads) { static const int ps[] = {0, 3, 9, 20, 27}; f.pad0 = ps[choose(0, pads - 1, "pad0")]; }
    if (CFG("sp", 0)) f.sp = choose(0, 1, "showpoint");
    if (aligns) { f.a.on = true; f.a.al = choose(0, 2, "alignment"); int fk = aligns > 1 ? choose(0, 2, "fillkind") : 0; f.a.fill = fk == 0 ? U' ' : fk == 1 ? (char32_t)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "fill") : (sizeof(C) == 2 ? U'\U0001F600' : U'\u20AC'); f.a.width = choose(0, CFG("wn", 3), "width") * CFG("wstep", 7); }
    if (KK_ == 3 || (KK_ == 4 && CFG("punct", 1))) {
        f.punct = true; int sk = seps ? choose(0, seps - 1, "sepkind") : CFG("sepk", 0);
#ifdef WIN1252
        static const u32 sv[] = {',', 0x20AC, 0xB7, 0x100}; static const u32 dv[] = {'.', 0x2026, 0xB7, 0x100}; f.sep = sv[sk]; f.dp = dv[sk]; f.sepvalid = f.dpvalid = sk != 3;
#else
        static const u32 sv[] = {',', 0xB7, 0x1F600, 0x2009, 0x110000}; static const u32 dv[] = {'.', 0x1F601, 0xB8, 0x2026, 0x120000}; f.sep = sk == 0 ? (u32)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "sep") : sv[sk]; f.dp = sk == 0 ? (u32)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "point") : dv[sk]; f.sepvalid = sk != 4; f.dpvalid = sk != 4 || sizeof(C) == 4;
#endif
        if (grp) { int k = f.ng = choose(1, grp, "groups"); int mx = CFG("gmax", 3); for (int i = 0; i < k; ++i) f.g[i] = choose(1, mx, "group"); f.rep = choose(0, 1, "repeat"); }
        else { f.ng = 1; f.g[0] = CFG("g0", 3); f.rep = true; }
    }
}
extern "C" void sym_main() {
    g_set = false; Fmt f{}; int what = CFG("what", 11), maxroom = CFG("maxroom", 8); f.nota = CFG("nota", GEN); options(f);
    bool neg = CFG("neg", 1) ? choose(0, 1, "negative") : false; X e;
#if MODE_ == 2
    bool nan = choose(0, 1, "nan"); std::uint64_t m = 0; if (nan) { m = sym_value(MB, "payload"); sym_assume(m != 0); }
    if (f.nota == 4) f.nota = choose(0, 3, "notation");
    T v = from_bits(neg, (1u << EB) - 1, m);
    X body; const char* w = nan ? (f.lc == 0 ? "nan" : f.lc == 1 ? "NAN" : "NaN") : (f.lc == 0 ? "inf" : f.lc == 1 ? "INF" : "Inf"); body.ascii(w); layout(e, f, neg, false, false, body);
    sym_cover(nan ? "nan" : "infinity"); f.p = CFG("prec", -1);
    printed(e, f, what, maxroom, v, nullptr, nullptr, 0);
#elif MODE_ == 1
    f.nota = HEX; int pr = CFG("prec", -1); f.p = pr; int cls = CFG("cls", 0); static const int NH = MB / 4 + (MB % 4 != 0);   // digits after the point: 13 or 6
    // significand: nz significant digits, each arbitrary
    int nz = choose(CFG("nzlo", 0), CFG("nzhi", NH) > NH ? NH : CFG("nzhi", NH), "significant digits"); int h[14] = {}; std::uint64_t man = 0;
    // the digit classes that rounding to f.p digits distinguishes are decided by the solver
    for (int i = 0; i < nz; ++i) { unsigned bits = MB % 4 && i == NH - 1 ? MB % 4 : 4; std::uint64_t d = sym_value(bits, "h"); if (i == nz - 1) sym_assume(d != 0); man |= d << (MB - 4 * i - (int)bits); h[i] = (int)(d << (4 - bits)); }
    bool sub = false; std::uint64_t be; int E; const int bias = (1 << (EB - 1)) - 1;
    if (cls == 0) { sub = true; be = 0; E = nz ? 1 - bias : 0; }
    else { static const int l64[] = {1, 24, 924, 1014, 1022, 1033, 1123, 2023}, h64[] = {23, 923, 1013, 1021, 1032, 1122, 2022, 2046}, l32[] = {1, 28, 118, 126, 137, 227}, h32[] = {27, 117, 125, 136, 226, 254};   // by sign and number of digits of the exponent
      int lo = sizeof(T) == 8 ? l64[cls - 1] : l32[cls - 1], hi = sizeof(T) == 8 ? h64[cls - 1] : h32[cls - 1];
      if (cls == 8) { lo = 2023; hi = 2046; } if (CFG("ends", 0)) be = choose(0, 1, "end") ? (std::uint64_t)hi : (std::uint64_t)lo; else be = sym_range((std::uint64_t)lo, (std::uint64_t)hi, "exponent"); E = (int)be - bias; }
    T v = from_bits(neg, be, man); X body; int one = sub ? 0 : 1, fr = nz;
    if (f.p >= 0) { fr = f.p; if (f.p < nz) {
        bool tail = false; for (int i = f.p + 1; i < nz; ++i) if (h[i]) { tail = true; break; }
        int odd = f.p ? h[f.p - 1] & 1 : one; bool up = h[f.p] > 8 || (h[f.p] == 8 && (tail || odd));
        for (int i = f.p; i < 13; ++i) h[i] = 0;
        if (up) { sym_cover("rounded up"); int i = f.p - 1; for (; i >= 0; --i) { if (h[i] == 15) h[i] = 0; else { ++h[i]; break; } } if (i < 0) { sym_cover("carry into the first digit"); if (one) { ++E; } else one = 1; } } } }
    hex_text(body, f, h, nz, sub, E, one, fr); layout(e, f, neg, true, true, body); sym_cover(sub ? "subnormal" : "normal");
    printed(e, f, what, maxroom, v, nullptr, nullptr, 0);
#else
    // the digits: ranges chosen so that what rounding does is known: the first digit dropped below 5, 5 or above, the run of nines before it
    Dec x; int pk = CFG("prec", -1); f.p = pk;
    if (CFG("plo", -1) >= 0) f.p = choose(CFG("plo", 0), CFG("phi", 0), "precision");
    x.n = choose(CFG("nlo", 1), CFG("nhi", 4), "digits"); x.e10 = CFG("ebase", 0) * (CFG("eneg", 0) ? -1 : 1) + choose(0, CFG("en", 8), "exponent") * CFG("estep", 1) - CFG("emid", 4); if (CFG("sci", 0)) x.e10 -= x.n - 1;
    bool zero = CFG("zero", 0) && choose(0, 1, "zero");
    if (zero) { x.n = 1; x.e10 = 0; x.d[0] = 0; }
    else {
        int k = f.p < 0 ? 99 : f.nota == FIX ? x.E() + 1 + f.p : f.nota == SCI ? f.p + 1 : f.p ? f.p : 1;
        int lo[24], hi[24]; for (int i = 0; i < x.n; ++i) { lo[i] = i == 0 || i == x.n - 1 ? 1 : 0; hi[i] = 9; }
        if (k >= 0 && k < x.n) {
            int c = choose(0, 2, "dropped digit"); if (c == 0) hi[k] = 4; else if (c == 1) lo[k] = hi[k] = 5; else lo[k] = 6;
            if (c > 0) { int mx = k < CFG("nines", 3) ? k : CFG("nines", 3); int r = choose(0, mx, "nines"); if (r == mx && k > mx) return; if (k > 0 && choose(0, 1, "all nines")) r = k; for (int i = k - r; i < k; ++i) lo[i] = hi[i] = 9; if (r < k) hi[k - r - 1] = 8; sym_cover(r == k ? "carry through all digits" : "rounded up or tie"); } else sym_cover("rounded down");
        }
        for (int i = 0; i < x.n; ++i) { if (lo[i] > hi[i]) return; x.d[i] = (int)sym_digit(lo[i], hi[i], "d"); }
    }
    T v;
    {
        std::uint64_t m = 0; for (int i = 0; i < x.n; ++i) m = m * 10 + (std::uint64_t)x.d[i];
        std::uint64_t be = 0, bm = 0; if (!zero) { be = sym_range((std::uint64_t)0, (std::uint64_t)((1 << EB) - 2), "bits of the exponent"); bm = sym_value(MB, "bits of the significand"); sym_assume(be != 0 || bm != 0); }
#if defined(SYMX)
        g_m10 = m; g_e10 = x.e10; g_exp = be; g_man = bm; g_set = true; v = from_bits(neg, be, bm);
#else
        char b[64]; std::snprintf(b, sizeof b, "%s%llue%d", neg ? "-" : "", (unsigned long long)m, x.e10); v = sizeof(T) == 8 ? (T)std::strtod(b, nullptr) : (T)std::strtof(b, nullptr);
        for (int q = 0; q < 17; ++q) {   // the digits of the number the text stands for
            std::snprintf(b, sizeof b, "%.*e", q, (double)v); T r = sizeof(T) == 8 ? (T)std::strtod(b, nullptr) : (T)std::strtof(b, nullptr); if (r != v) continue;
            x.n = 0; const char* s = b; for (; *s && *s != 'e'; ++s) if (*s >= '0' && *s <= '9') x.d[x.n++] = *s - '0';
            x.e10 = std::atoi(s + 1) - (x.n - 1); while (x.n > 1 && x.d[x.n - 1] == 0) { --x.n; ++x.e10; } if (zero) x.e10 = 0; break;
        }
#endif
    }
    kf3 = false; X body; number(body, f, x); layout(e, f, neg, false, true, body); sym_cover(neg ? "negative" : "not negative"); if (zero) sym_cover("zero");
    if (strip) { sym_cover("KF3"); kf3 = true; X b2, e2; number(b2, f, x); layout(e2, f, neg, false, true, b2); printed(e2, f, what, maxroom, v, "KF3 zeros that operator* keeps are removed when digits are dropped", &e, 0); }
    else printed(e, f, what, maxroom, v, nullptr, nullptr, 0);
#endif
}
#endif
