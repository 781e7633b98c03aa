// C13-C17: integers (and pointers) in every format.
#ifndef TT_
#define TT_ int
#endif
#ifndef CC_
#define CC_ char
#endif
#ifndef KK_
#define KK_ 0     // 0 plain, 1 aligned only, 2 base without pad0/punct, 3 with precision/pad0, 4 punct, 5 dynamic, 6 pointer
#endif
#ifndef BB_
#define BB_ 10
#endif
#include "printx.h"
#include <limits>
#include <utility>
using namespace px;
typedef TT_ T; typedef std::make_unsigned<T>::type U; typedef CC_ C;
#include "intmodel.h"
static bool value10(Num& x) {
    bool neg = false; if (std::is_signed<T>::value) neg = choose(0, 1, "neg");
    U max = neg ? (U)((U)1 << (sizeof(T) * 8 - 1)) : (U)std::numeric_limits<T>::max();
    char md[24]; int mn = 0; { char t[24]; U m = max; while (m) { t[mn++] = (char)(m % 10); m /= 10; } for (int i = 0; i < mn; ++i) md[i] = t[mn - 1 - i]; }
    int lo_n = CFG("lon", 1), hi_n = CFG("hin", 20); if (hi_n > mn) hi_n = mn; if (lo_n > hi_n) lo_n = hi_n;
    int n = choose(lo_n, hi_n, "ndigits"), p = n < mn ? -1 : choose(0, mn, "prefix");
    U acc = 0;
    for (int i = 0; i < n; ++i) {
        int lo = i == 0 && (n > 1 || neg) ? 1 : 0, hi = 9;
        if (n == mn && i < p) lo = hi = md[i]; else if (n == mn && i == p) hi = md[i] - 1;
        if (lo > hi) return false;
        int d = (int)sym_digit(lo, hi, "d"); x.dg[i] = (char)(d + '0'); acc = (U)(acc * 10 + d);
    }
    x.n = n; x.neg = neg; x.v = neg ? (T)(U)(0 - acc) : (T)acc; x.zero = n == 1 && !neg && acc == 0; return true;
}
static bool valuepow2(Num& x, int base, bool upper) {
    int sh = base == 16 ? 4 : base == 8 ? 3 : 1, bits = sizeof(T) * 8, mx = (bits + sh - 1) / sh;
    int lo_n = CFG("lon", 1), hi_n = CFG("hin", 64); if (hi_n > mx) hi_n = mx; if (lo_n > hi_n) lo_n = hi_n;
    int n = choose(lo_n, hi_n, "ndigits"); U v = 0;
    for (int i = 0; i < n; ++i) {
        int k = sh * n > bits && i == 0 ? bits - sh * (n - 1) : sh;
        unsigned d = (unsigned)sym_value((unsigned)k, "d"); if (i == 0 && n > 1) sym_assume(d != 0);
        v = (U)((v << (i ? sh : 0)) | (U)d); x.dg[i] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
    }
    x.n = n; x.neg = false; x.v = (T)v; x.zero = n == 1 && v == 0; return true;
}
template <int B, class V> constexpr auto to_base(V v) { if constexpr (B == 16) return strf::hex(v); else if constexpr (B == 8) return strf::oct(v); else if constexpr (B == 2) return strf::bin(v); else return strf::dec(v); }
extern "C" void sym_main() {
    Fmt f{}; f.base = BB_; int what = CFG("what", 15), maxroom = CFG("maxroom", 8);
    int signs = CFG("signs", 0), bases = CFG("bases", 0), precs = CFG("precs", 0), pads = CFG("pads", 0), aligns = CFG("aligns", 0), lc = CFG("lc", 0), seps = CFG("seps", 0), grp = CFG("grp", 0);
    if (KK_ == 6) f.showbase = true;
    if (KK_ == 5) { static const int bs[] = {10, 16, 8, 2, 7}; f.base = bs[CFG("dynbase", 0)]; if (f.base == 7) f.base = 10; }
    if (signs && f.base == 10) { static const char sg[] = {0, '+', ' '}; f.sign = sg[choose(0, 2, "sign")]; }
    if (bases && f.base != 10) f.showbase = choose(0, 1, "showbase");
    int lk = lc ? choose(0, lc, "lettercase") : 0;   // lowercase, uppercase, mixedcase: 0xABC
    strf::lettercase lcase = lk == 0 ? strf::lowercase : lk == 1 ? strf::uppercase : strf::mixedcase; f.upper = lk != 0; f.pupper = lk == 1;
    if (precs) { static const int ps[] = {0, 1, 3, 7, 12, 25}; f.prec = ps[choose(0, precs - 1, "precision")]; }
    if (pads) { static const int ps[] = {0, 2, 9, 23}; f.pad0 = ps[choose(0, pads - 1, "pad0")]; }
    f.a = Align{false, U' ', 0, 1};
    if (aligns) { f.a.on = true; f.a.al = choose(0, 2, "alignment"); int fk = aligns > 1 ? choose(0, 2, "fillkind") : 0; f.a.fill = fk == 0 ? U' ' : fk == 1 ? (char32_t)sym_range(0x21, 0x7E, "fill") : (sizeof(C) == 2 ? U'\U0001F600' : U'\u20AC'); }
    f.sep = U','; f.sepvalid = true; strf::digits_grouping g;
    if (KK_ == 4 || (KK_ == 5 && CFG("punct", 0))) {
        f.punct = true;
        int sk = seps ? choose(0, seps - 1, "sepkind") : 0; static const u32 sv[] = {0, 0xB7, 0x1F600, 0xD800, 0x2009, 0x110000}; f.sep = sk == 0 ? (u32)sym_range(0x21, 0x7E, "sep") : sv[sk]; f.sepvalid = f.sep < 0xD800 || (f.sep > 0xDFFF && f.sep <= 0x10FFFF) || (sizeof(C) == 4 && 0);
        if (grp) { int k = f.ng = choose(1, grp, "groups"); int mx = CFG("gmax", 4); for (int i = 0; i < k; ++i) f.g[i] = choose(1, mx, "group"); f.rep = choose(0, 1, "repeat"); }
        else { f.ng = 1; f.g[0] = 3; f.rep = true; }
        int m = f.rep ? f.ng : f.ng + 1; int q[7]; for (int i = 0; i < f.ng; ++i) q[i] = f.g[i]; q[f.ng] = -1;
        switch (m) { case 1: g = strf::digits_grouping(q[0]); break; case 2: g = strf::digits_grouping(q[0], q[1]); break; case 3: g = strf::digits_grouping(q[0], q[1], q[2]); break;
          case 4: g = strf::digits_grouping(q[0], q[1], q[2], q[3]); break; case 5: g = strf::digits_grouping(q[0], q[1], q[2], q[3], q[4]); break; case 6: g = strf::digits_grouping(q[0], q[1], q[2], q[3], q[4], q[5]); break; default: g = strf::digits_grouping(q[0], q[1], q[2], q[3], q[4], q[5], q[6]); }
    }
    Num x; if (!(f.base == 10 ? value10(x) : valuepow2(x, f.base, f.upper))) return;
    if (aligns) { Text<C> probe; Fmt f2 = f; f2.a.width = 0; expect(probe, x, f2); int w = probe.w; f.a.width = choose(CFG("wlo", -2), CFG("whi", 5), "width") + w; if (choose(0, 4, "narrow") == 0) f.a.width = 0; }
    Text<C> e; expect(e, x, f);
    sym_cover(x.neg ? "negative" : "not negative"); if (f.punct && e.n > x.n) sym_cover("separators");
    auto run = [&](const auto& arg) {
        auto np = strf::numpunct<BB_>(g).thousands_sep((char32_t)f.sep);
        if constexpr (KK_ == 4) px::check(e, what, maxroom, true, strf::pack(lcase, np), arg);
        else if constexpr (KK_ == 5) px::check(e, what, maxroom, true, strf::pack(lcase, strf::numpunct<10>(g).thousands_sep((char32_t)f.sep), strf::numpunct<16>(g).thousands_sep((char32_t)f.sep), strf::numpunct<8>(g).thousands_sep((char32_t)f.sep), strf::numpunct<2>(g).thousands_sep((char32_t)f.sep)), arg);
        else px::check(e, what, maxroom, true, strf::pack(lcase), arg);
    };
    auto withalign = [&](auto a) { if (aligns) run(a.set_alignment_format(afmt(f.a))); else run(a); };
#if KK_ == 0
    run(x.v);
#elif KK_ == 1
    { Align& a = f.a; (void)a; if (!aligns) run(strf::fmt(x.v)); else { if (a.fill == U' ') { if (a.al == 0) run(strf::fmt(x.v) < (strf::width_t)a.width); else if (a.al == 1) run(strf::fmt(x.v) > (strf::width_t)a.width); else run(strf::fmt(x.v) ^ (strf::width_t)a.width); } else withalign(strf::fmt(x.v)); } }
#elif KK_ == 2
  #if BB_ == 10
    { if (f.sign == 0) withalign(strf::dec(x.v)); else if (f.sign == '+') withalign(+strf::fmt(x.v)); else withalign(~strf::fmt(x.v)); }
  #else
    { if (!f.showbase) withalign(to_base<BB_>(x.v)); else withalign(*to_base<BB_>(x.v)); }
  #endif
#elif KK_ == 3 || KK_ == 4
    { auto b = to_base<BB_>(x.v).p(f.prec).pad0(f.pad0);
  #if KK_ == 4
      auto c = !std::move(b);
  #else
      auto c = b;
  #endif
  #if BB_ == 10
      if (f.sign == '+') c = +std::move(c); else if (f.sign == ' ') c = ~std::move(c);
  #else
      if (f.showbase) c = *std::move(c);
  #endif
      withalign(c); }
#elif KK_ == 5
    { static const int bs[] = {10, 16, 8, 2, 7};
      auto c = strf::fmt(x.v).base(bs[CFG("dynbase", 0)]).p(f.prec).pad0(f.pad0); if (f.punct) c = !std::move(c); if (f.sign == '+') c = +std::move(c); else if (f.sign == ' ') c = ~std::move(c); if (f.showbase) c = *std::move(c);
      withalign(c); }
#elif KK_ == 6
    { const void* p = reinterpret_cast<const void*>((std::size_t)x.v); if (aligns) run(strf::fmt(p).set_alignment_format(afmt(f.a))); else run(p); }
#endif
}
