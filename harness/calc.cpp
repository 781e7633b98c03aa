// C19: width calculators and precision. compile flags: E_ 8, 16, 32 or 1000+index; C_ unit type, CS_ charset template; WC_ 0 std 1 fast 2 fast_u32len 3 u32len
// cfg: mode 0 strings of grapheme cluster classes (cls: decimal digits pairs, or n arbitrary classes), 1 one arbitrary code point between classes, 2 arbitrary units (pat), 3 long strings, 4 printing with precision, 5 characters
#include "printx.h"
#include "gcb.h"
#include "sbcs_tables.h"
#ifndef E_
#define E_ 32
#define C_ char32_t
#define CS_ strf::utf_t
#endif
#ifndef WC_
#define WC_ 0
#endif
using namespace px; using namespace uni; typedef std::int64_t i64; typedef std::int32_t i32;
typedef C_ C; typedef CS_<C> S;
inline int docwidth(u32 c) {
    return (c >= 0x1100 && c <= 0x115F) || (c >= 0x2329 && c <= 0x232A) || (c >= 0x2E80 && c <= 0x303E) || (c >= 0x3040 && c <= 0xA4CF) || (c >= 0xAC00 && c <= 0xD7A3) || (c >= 0xF900 && c <= 0xFAFF) || (c >= 0xFE10 && c <= 0xFE19) || (c >= 0xFE30 && c <= 0xFE6F) || (c >= 0xFF00 && c <= 0xFF60) || (c >= 0xFFE0 && c <= 0xFFE6) || (c >= 0x1F300 && c <= 0x1F64F) || (c >= 0x1F900 && c <= 0x1F9FF) || (c >= 0x20000 && c <= 0x2FFFD) || (c >= 0x30000 && c <= 0x3FFFD) ? 2 : 1;
}
enum { OTHER, CR, LF, CTL, EXT, ZWJ, SPM, PRP, HL, HV, HT, LV, LVT, RI, PIC, WIDE, PIC1, NCLS };
static bool yes(bool c) { return sym_concretize(c) != 0; }
static int gclass(u32 c) {      // decided by case distinction, so that the result is concrete
    if (yes(c > 0x10FFFF)) return OTHER;
    int lo = 0, hi = gcb::N; while (hi - lo > 1) { int m = (lo + hi) / 2; if (yes(c < gcb::ranges[m].first)) hi = m; else lo = m; }
    int k = gcb::ranges[lo].cls; if (k == 11) { if (yes((c - 0xAC00) % 28 == 0)) return LV; return LVT; }
    return k;
}
struct GItem { int begin, len, cls; u32 cp; int w; bool ok; };
static GItem it[200]; static int ni;
// UAX #29, rules GB3-GB13: is there a boundary before item i (i > 0)?
static bool boundary(int i) {
    int a = it[i - 1].cls, b = it[i].cls;
    auto big = [](int k) { return k == WIDE ? (int)OTHER : k == PIC1 ? (int)PIC : k; }; a = big(a); b = big(b);
    if (a == CR && b == LF) return false;
    if (a == CR || a == LF || a == CTL || b == CR || b == LF || b == CTL) return true;
    if (a == HL && (b == HL || b == HV || b == LV || b == LVT)) return false;
    if ((a == LV || a == HV) && (b == HV || b == HT)) return false;
    if ((a == LVT || a == HT) && b == HT) return false;
    if (b == EXT || b == ZWJ || b == SPM) return false;
    if (a == PRP) return false;
    if (a == ZWJ && b == PIC) { int k = i - 2; while (k >= 0 && it[k].cls == EXT) --k; if (k >= 0 && big(it[k].cls) == PIC) return false; }
    if (a == RI && b == RI) { int k = 0; for (int j = i - 1; j >= 0 && it[j].cls == RI; --j) ++k; if (k % 2 == 1) return false; }
    return true;
}
static u32 inclass(int k) {     // any code point of one contiguous range of the class
    switch (k) {
    case OTHER: return (u32)sym_range('a', 'z', "c"); case CR: return 13; case LF: return 10; case CTL: return (u32)sym_range(0x80, 0x9F, "c"); case EXT: return (u32)sym_range(0x300, 0x36F, "c"); case ZWJ: return 0x200D; case SPM: return 0x903;
    case PRP: return (u32)sym_range(0x600, 0x605, "c"); case HL: return (u32)sym_range(0x1100, 0x115F, "c"); case HV: return (u32)sym_range(0x1160, 0x11A7, "c"); case HT: return (u32)sym_range(0x11A8, 0x11FF, "c");
    case LV: return 0xAC00 + 28 * (u32)sym_range(0, 398, "c"); case LVT: { u32 c = (u32)sym_range(0xAC00, 0xD7A3, "c"); sym_assume((c - 0xAC00) % 28 != 0); return c; } case RI: return (u32)sym_range(0x1F1E6, 0x1F1FF, "c"); case PIC: return (u32)sym_range(0x1F600, 0x1F64F, "c");
    case WIDE: return (u32)sym_range(0x4E00, 0x9FFF, "c"); default: return (u32)sym_range(0x1F680, 0x1F6C5, "c"); }
}
static auto wcalc() {
#if WC_ == 1
    return strf::fast_width;
#elif WC_ == 2
    return strf::width_as_fast_u32len;
#elif WC_ == 3
    return strf::width_as_u32len;
#else
    return strf::std_width_calc;
#endif
}
static i64 U(strf::width_t w) { return w.underlying_value(); }
static u32 us[400]; static int n;
static void push(u32 cp, int cls) { GItem& t = it[ni++]; t.begin = n; t.cp = cp; t.cls = cls; t.ok = true; t.w = (int)sym_concretize((std::uint64_t)docwidth(cp)); t.len = enc(E_ >= 1000 ? 32 : E_, cp, us + n); n += t.len; }
// cut positions: (units, width) in order
static int cu[200], cw[200], nc;
static void cuts() {
    nc = 0; cu[0] = 0; cw[0] = 0; int w = 0;
    for (int i = 0; i < ni; ++i) {
        if (WC_ == 1) { for (int j = 0; j < it[i].len; ++j) { ++nc; cu[nc] = it[i].begin + j + 1; cw[nc] = ++w; } continue; }
        bool b = i == 0 || WC_ != 0 || boundary(i);
        if (b) { ++nc; w += WC_ ? 1 : it[i].w; }
        cu[nc] = it[i].begin + it[i].len; cw[nc] = w;
    }
}
static int fits(i64 lim) { int k = nc; while (k > 0 && (i64)cw[k] * 65536 > lim) --k; return k; }
static void query(const C* s, i64 lim) {
    auto calc = wcalc(); strf::width_t l = strf::width_t::from_underlying((i32)lim); i64 W = (i64)cw[nc] * 65536;
    auto w = calc.str_width(S(), l, s, s + n);
    if (W < lim) { sym_check(U(w) == W, "str_width of a string narrower than the limit"); sym_cover("below the limit"); } else { sym_check(U(w) >= lim, "str_width of a string as wide as the limit"); sym_cover("limit reached"); }
    auto r = calc.str_width_and_pos(S(), l, s, s + n); int k = fits(lim);
    sym_check(r.ptr - s == cu[k], "position of str_width_and_pos"); sym_check(U(r.width) == (i64)cw[k] * 65536, "width of str_width_and_pos"); sym_trace((std::uint64_t)(r.ptr - s)); sym_trace((std::uint64_t)U(r.width));
}
static i64 limit(int around, int spread) { // any limit, or any near the given width
    if (around < 0) return (i64)(i32)(u32)sym_value(32, "limit");
    u32 d = (u32)sym_value(32, "limit"); sym_assume(d < (u32)spread * 2 * 65536); return (i64)(around - spread) * 65536 + d;
}
static void pad(int k) { for (int i = 0; i < k; ++i) push('x', OTHER); }
extern "C" void sym_main() {
    n = 0; ni = 0; int mode = CFG("mode", 0), padn = CFG("pad", 0);
    if (mode == 0) {
        pad(padn); int k = CFG("n", 3); std::uint64_t fix = sym_config("cls", 0), f = 0; for (; fix; fix /= 100) f = f * 100 + fix % 100;      // reversed: first class first
        for (; f; f /= 100) push(inclass((int)(f % 100) - 1), (int)(f % 100) - 1);
        for (int i = 0; i < k; ++i) { int c = choose(0, NCLS - 1, "class"); push(inclass(c), c); }
        if (CFG("tail", 0)) push('y', OTHER);
        cuts(); Heap<C> s(n); for (int i = 0; i < n; ++i) s[i] = (C)us[i];
        query(s, limit(CFG("any", 0) ? -1 : cw[nc] > 4 ? cw[nc] - 2 : 2, 5));
    } else if (mode == 1) {
        static const u32 rep[] = {'a', 13, 10, 7, 0x301, 0x200D, 0x903, 0x600, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x1F1E6, 0x1F600};
        int a = CFG("pre", -1), b = CFG("post", -1); if (a >= 0) push(rep[a], a);
        u32 c = (u32)sym_value(32, "c"); if (E_ != 32 || !CFG("wide", 0)) sym_assume(c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF));
        u32 v = c; if (yes(v > 0x10FFFF) || (yes(v >= 0xD800) && yes(v <= 0xDFFF))) v = 0xFFFD; push(v, gclass(v)); int p = it[ni - 1].begin; if (b >= 0) push(rep[b], b);
        cuts(); Heap<C> s(n); for (int i = 0; i < n; ++i) s[i] = (C)us[i]; if (E_ == 32) s[p] = (C)c;
        query(s, 65536); query(s, 131072); if (a >= 0 && b >= 0) query(s, 196608); query(s, 400000);
    } else if (mode == 2) {
        std::uint64_t pat = (std::uint64_t)sym_config("pat", 99);
        if (E_ >= 1000) { for (; pat; pat /= 10) us[n++] = (u32)sym_value(8, "b"); for (int i = 0; i < n; ++i) { u32 cp = sbcs_table[E_ - 1000][us[i]]; bool bad = cp == 0 && us[i] != 0; GItem& t = it[ni++]; t.begin = i; t.len = 1; t.cp = bad ? 0xFFFD : cp; } }
        else { n = source(us, E_, pat); for (int p = 0; p < n;) { Step st = dec(E_, us + p, n - p, false); GItem& t = it[ni++]; t.begin = p; t.len = st.len; t.ok = st.ok; t.cp = st.ok ? st.cp : 0xFFFD; p += st.len; if (WC_ == 2) { sym_assume(st.ok); if (!st.ok) return; } if (!st.ok) sym_cover("ill-formed"); } }
        if (WC_ == 0) for (int i = 0; i < ni; ++i) { it[i].cls = it[i].cp == 0xFFFD ? OTHER : gclass(it[i].cp); it[i].w = (int)sym_concretize((std::uint64_t)docwidth(it[i].cp)); }
        cuts(); Heap<C> s(n); for (int i = 0; i < n; ++i) s[i] = (C)us[i]; query(s, limit(-1, 0));
    } else if (mode == 3) {
        // longer than any width: x repeated, so that only the counts matter
        int len = CFG("len", 32770); Heap<C> s(len); for (int i = 0; i < len; ++i) s[i] = (C)'x'; auto calc = wcalc(); static const i64 lims[] = {0x7FFFFFFF, 0x7FFF0001, 0x7FFF0000, 0x7FFEFFFF, 0x7FFE0000}; i64 lim = lims[choose(0, 4, "limit")];
        auto w = calc.str_width(S(), strf::width_t::from_underlying((i32)lim), s.p, s.p + len); i64 W = (i64)len * 65536;
        if (W < lim) sym_check(U(w) == W, "str_width of a long string"); else sym_check(U(w) >= lim, "str_width of a string wider than the limit");
        i64 k = lim / 65536 < len ? lim / 65536 : len;
        if (CFG("pos", 1)) { auto r = calc.str_width_and_pos(S(), strf::width_t::from_underlying((i32)lim), s.p, s.p + len); sym_check(r.ptr - s.p == k && U(r.width) == k * 65536, "str_width_and_pos of a long string"); }
    } else if (mode == 4) {
        pad(padn); int k = CFG("n", 2); std::uint64_t fix = sym_config("cls", 0), f = 0; for (; fix; fix /= 100) f = f * 100 + fix % 100;
        for (; f; f /= 100) push(inclass((int)(f % 100) - 1), (int)(f % 100) - 1);
        for (int i = 0; i < k; ++i) { int c = choose(0, NCLS - 1, "class"); push(inclass(c), c); }
        cuts(); Heap<C> s(n); for (int i = 0; i < n; ++i) s[i] = (C)us[i];
        int what = CFG("what", 9); bool prec = CFG("prec", 1) != 0; i64 lim = prec ? limit(cw[nc] > 4 ? cw[nc] - 2 : 2, 4) : 0x7FFFFFFF; int q = fits(lim); strf::width_t l = strf::width_t::from_underlying((i32)lim);
        Text<C, 400> body, e; for (int i = 0; i < cu[q]; ++i) body.u[body.n++] = (C)us[i]; body.w = cw[q]; if (q < nc) sym_cover("cut");
        Align al; al.on = CFG("align", 0) != 0; al.al = al.on ? choose(0, 2, "alignment") : 0; al.fill = '*'; al.width = al.on ? body.w + choose(0, 2, "width") - 1 : 0; if (al.width < 0) al.width = 0;
        aligned(e, al, body); strf::detail::simple_string_view<C> v(s.p, (std::size_t)n); auto fp = strf::pack(wcalc());
        if (CFG("sani", 0)) { if (prec && al.on) px::check(e, what, 0, true, fp, strf::sani(v).p(l).set_alignment_format(afmt(al))); else if (prec) px::check(e, what, 0, true, fp, strf::sani(v).p(l)); else px::check(e, what, 0, true, fp, strf::sani(v)); }
        else if (prec && al.on) px::check(e, what, 0, true, fp, strf::fmt(v).p(l).set_alignment_format(afmt(al)));
        else if (prec) px::check(e, what, 0, true, fp, strf::fmt(v).p(l));
        else if (al.on) px::check(e, what, 0, true, fp, strf::fmt(v).set_alignment_format(afmt(al)));
        else px::check(e, what, 0, true, fp, v);
    } else if (mode == 5) {
        u32 u = (u32)sym_value(sizeof(C) * 8, "u"); u32 cp = E_ >= 1000 ? sbcs_table[E_ - 1000][u] : E_ == 8 ? (u < 0x80 ? u : 0xFFFD) : E_ == 16 ? ((u & 0xF800) == 0xD800 ? 0xFFFD : u) : u; if (E_ >= 1000 && cp == 0 && u) cp = 0xFFFD;
        auto w = wcalc().char_width(S(), (C)u); sym_check(U(w) == (WC_ == 0 ? docwidth(cp) : 1) * 65536, "char_width"); sym_trace((std::uint64_t)U(w));
    }
}
