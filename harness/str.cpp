// C24 (and C15-C17, C19): strings, characters and booleans. compile flags:
// KK_ 0 string argument as it is, 1 formatted string, 2 character, 3 repeated character, 4 char32_t to another type, 5 the same repeated, 6 bool
// SC_/DC_ character types, SE_/DE_ 8, 16, 32 or 1000+index in sbcs_tables.h, SCS_/DCS_ charset templates, SX_ 1: source charset given explicitly, 2: as a type-erased one
// DX_ 1: destination charset facet type-erased; POL_ 0 none 1 transcode 2 sani 3 unsafe; AL_ aligned; PR_ precision; WC_ width calculator 0 default, 1 fast, 2 fast_u32len, 3 u32len
// cfg: pat (as in pivot.cpp; 6: one printable ASCII), what, maxroom, wlo/whi, aligns, plo/phi, hold
#ifdef SV_
#include <string_view>
#endif
#include "trans.h"
#include "printx.h"
#include "sbcs_tables.h"
#ifndef KK_
#define KK_ 0
#endif
#ifndef SC_
#define SC_ char
#endif
#ifndef DC_
#define DC_ SC_
#endif
#ifndef SE_
#define SE_ 8
#define SCS_ strf::utf_t
#endif
#ifndef DE_
#define DE_ SE_
#define DCS_ SCS_
#endif
#ifndef SX_
#define SX_ 0
#endif
#ifndef DX_
#define DX_ 0
#endif
#ifndef POL_
#define POL_ 0
#endif
#ifndef AL_
#define AL_ 0
#endif
#ifndef PR_
#define PR_ 0
#endif
#ifndef WC_
#define WC_ 0
#endif
using namespace px; using namespace tr;
typedef SC_ SC; typedef DC_ DC; typedef SCS_<SC> S; typedef DCS_<DC> D;
static u32 tdec(int cs, unsigned b) { u32 c = sbcs_table[cs][b & 255]; return c == 0 && b != 0 ? 0xFFFFFFFF : c; }
static unsigned tenc(int cs, u32 cp) { unsigned r = 0x100; for (unsigned b = 0; b < 256; ++b) { u32 c = tdec(cs, b); r = (c <= 0x10FFFF && c == cp) ? b : r; } return r; }
static int src_units(u32* s, std::uint64_t pat) {
    int d[20], k = 0, n = 0; while (pat) { d[k++] = (int)(pat % 10); pat /= 10; }
    while (k--) { if (d[k] == 7) for (int i = 0; i < 14; ++i) s[n++] = 'x'; else if (d[k] == 5) s[n++] = 'x'; else if (d[k] == 6) s[n++] = (u32)sym_range(0x20, 0x7E, "a"); else if (SE_ >= 1000) s[n++] = (u32)sym_value(8, "b"); else n += source(s + n, SE_, (std::uint64_t)d[k]); }
    return n;
}
// the width of a character under the default calculator, from the documentation of std_width_calc
inline int docwidth(u32 c) {
    return (c >= 0x1100 && c <= 0x115F) || (c >= 0x2329 && c <= 0x232A) || (c >= 0x2E80 && c <= 0x303E) || (c >= 0x3040 && c <= 0xA4CF) || (c >= 0xAC00 && c <= 0xD7A3) || (c >= 0xF900 && c <= 0xFAFF) || (c >= 0xFE10 && c <= 0xFE19) || (c >= 0xFE30 && c <= 0xFE6F) || (c >= 0xFF00 && c <= 0xFF60) || (c >= 0xFFE0 && c <= 0xFFE6) || (c >= 0x1F300 && c <= 0x1F64F) || (c >= 0x1F900 && c <= 0x1F9FF) || (c >= 0x20000 && c <= 0x2FFFD) || (c >= 0x30000 && c <= 0x3FFFD) ? 2 : 1;
}
static List c;
static void build(const u32* us, int n) {
    c.n = 0; c.len = n;
    for (int p = 0; p < n;) {
        It& t = c.it[c.n++]; t.begin = p; bool ok; u32 cp;
        if (SE_ >= 1000) { cp = tdec(SE_ - 1000, us[p]); ok = cp != 0xFFFFFFFF; t.len = 1; } else { Step st = dec(SE_, us + p, n - p, false); ok = st.ok; cp = st.cp; t.len = st.len; }
        t.cp = ok ? cp : 0xFFFD; t.k = ok ? OK : INVALID;
        if (DE_ >= 1000) { t.outlen = 1; if (!ok || cp == 0xFFFD) t.out[0] = '?'; else { if (SE_ == 32 && cp >= 0xE000 && cp <= 0xFFFF) { sym_assume(false); return; } unsigned b = tenc(DE_ - 1000, cp); if (b < 0x100) t.out[0] = b; else { t.out[0] = '?'; t.k = UNSUPPORTED; sym_cover("unsupported"); } } }
        else t.outlen = enc(DE_, t.cp, t.out);
        if (!ok) sym_cover("invalid"); p += t.len;
    }
}
struct KRec : strf::transcoding_error_notifier {      // each kind in order
    struct I { const void* p; long n; } inv[64]; u32 uns[64]; int ni = 0, nu = 0; bool bad = false;
    void invalid_sequence(int cus, const char* name, const void* p, std::ptrdiff_t k) override { if (cus != (int)sizeof(SC) || !streq(name, S::name())) bad = true; if (ni < 64) inv[ni] = {p, (long)k}; ++ni; }
    void unsupported_codepoint(const char* name, unsigned cp) override { if (!streq(name, D::name())) bad = true; if (nu < 64) uns[nu] = cp; ++nu; }
};
template <class X> static auto erased(X x, std::true_type) { return strf::dynamic_charset<typename X::code_unit>(x); }
template <class X> static auto erased(X x, std::false_type) { return x; }
static auto wcalc() {
#if WC_ == 1
    return strf::fast_width;
#elif WC_ == 2
    return strf::width_as_fast_u32len;
#elif WC_ == 3
    return strf::width_as_u32len;
#else
    return strf::std_width_calc;
#endif
}
static Align al; static int prec;
template <class F> static auto align(const F& f) {
#if AL_
    return f.set_alignment_format(afmt(al));
#else
    return f;
#endif
}
template <class F> static auto precision(const F& f) {
#if PR_
    return f.p((strf::width_t)prec);
#else
    return f;
#endif
}
// `cp` the fill wanted; what the destination charset writes instead of one it has not got
static char32_t fillas(char32_t f) { return DE_ >= 1000 && f >= 0x80 ? (tenc(DE_ - 1000, f) < 0x100 ? f : U'?') : f; }
template <class X> static void chooseal(X& body) {
    al.on = AL_; if (!AL_) return;
    al.al = choose(0, 2, "alignment"); int fk = choose(0, CFG("aligns", 2), "fillkind"); al.fill = fk == 0 ? U' ' : fk == 1 ? (char32_t)sym_range(0x21, 0x7E, "fill") : (sizeof(DC) == 2 ? U'\U0001F600' : U'\u20AC');
    al.width = choose(CFG("wlo", -2), CFG("whi", 4), "width") + body.w; if (al.width < 0) al.width = 0;
}
extern "C" void sym_main() {
    int what = CFG("what", 15), maxroom = CFG("maxroom", 8); static u32 us[80]; KRec rec; Text<DC, 600> body, e; bool valid = true, widthknown = true, converted = false;
    auto dcs = erased(D(), std::integral_constant<bool, DX_ == 1>()); auto facets = strf::pack(dcs, strf::transcoding_error_notifier_ptr(&rec), wcalc());
    auto put = [&](u32 v) { body.u[body.n++] = static_cast<DC>(v); };
    auto finish = [&](const auto& arg) {
        chooseal(body); e.n = 0; Align a = al; a.fill = fillas(al.fill);
        int f = a.on && a.width > body.w ? a.width - body.w : 0, l = a.al == 0 ? 0 : a.al == 1 ? f : f / 2;
        if (DE_ < 1000) e.ch(a.fill, l); else for (int i = 0; i < l; ++i) e.u[e.n++] = (DC)(a.fill < 0x80 ? a.fill : tenc(DE_ - 1000, a.fill));
        for (int i = 0; i < body.n; ++i) e.u[e.n++] = body.u[i];
        if (DE_ < 1000) e.ch(a.fill, f - l); else for (int i = 0; i < f - l; ++i) e.u[e.n++] = (DC)(a.fill < 0x80 ? a.fill : tenc(DE_ - 1000, a.fill));
        e.w = body.w + f; if (f) sym_cover("filled");
        px::check(e, what, maxroom, widthknown, facets, align(arg));
    };
#if KK_ <= 1
    int n = src_units(us, (std::uint64_t)sym_config("pat", 99)), hold = CFG("hold", 0);
    if (hold == 0) for (int i = 0; i < n; ++i) sym_assume(us[i] != 0);
    Heap<SC> sb(hold == 0 ? n + 1 : n); for (int i = 0; i < n; ++i) sb[i] = (SC)us[i]; if (hold == 0) sb[n] = 0;
    int m = n;   // units that remain after the precision
    build(us, n); for (int i = 0; i < c.n; ++i) if (c.it[i].k == INVALID) valid = false;
    if (POL_ == 3 || WC_ == 2) { sym_assume(valid); if (!valid) return; }
    if (PR_) {
        int total = WC_ == 1 ? n : c.n; prec = choose(CFG("plo", 0), CFG("phi", 3), "precision"); int k = prec < total ? prec : total;
        m = WC_ == 1 ? k : k == c.n ? n : c.it[k].begin; sym_cover(m < n ? "cut" : "not cut");
        build(us, m); valid = true; for (int i = 0; i < c.n; ++i) if (c.it[i].k == INVALID) valid = false;
        if (POL_ == 3) { sym_assume(valid); if (!valid) return; }
    }
    body.w = WC_ == 1 ? m : c.n;
    #if WC_ == 0
    widthknown = CFG("asciiw", 1) != 0;
    #endif
    constexpr bool same = SE_ == DE_; converted = POL_ == 2 || POL_ == 3 || (POL_ == 1 && !same);
    if (converted) { for (int i = 0; i < c.n; ++i) for (int j = 0; j < c.it[i].outlen; ++j) put(c.it[i].out[j]); } else for (int i = 0; i < m; ++i) put(us[i]);
    #if KK_ == 0
    #ifdef SV_
    if (hold == 2) { std::basic_string_view<SC> v(sb.p, (std::size_t)n); finish(v); } else
    #endif
    if (hold == 0) finish(static_cast<const SC*>(sb.p)); else { std::basic_string<SC> str(sb.p, (std::size_t)n); finish(str); }
    #else
    auto scs = erased(S(), std::integral_constant<bool, SX_ == 2>()); (void)scs;
    auto with = [&](const auto& h) {
        #if POL_ == 0
        finish(precision(strf::fmt(h)));
        #elif SX_ == 0 && POL_ == 1
        finish(precision(strf::transcode(h)));
        #elif SX_ == 0 && POL_ == 2
        finish(precision(strf::sani(h)));
        #elif SX_ == 0 && POL_ == 3
        finish(precision(strf::fmt(h).unsafe_transcode()));
        #elif POL_ == 1
        finish(precision(strf::transcode(h, scs)));
        #elif POL_ == 2
        finish(precision(strf::sani(h, scs)));
        #else
        finish(precision(strf::fmt(h).unsafe_transcode(scs)));
        #endif
    };
    if (hold == 0) with(static_cast<const SC*>(sb.p)); else with(strf::detail::simple_string_view<SC>(sb.p, (std::size_t)n));
    #endif
    if (what & 12) {
        int ni = 0, nu = 0; sym_check(!rec.bad, "unit size and charset names of the notifications");
        if (converted) for (int i = 0; i < c.n; ++i) {
            const It& t = c.it[i];
            if (t.k == INVALID) { if (ni < rec.ni) sym_check(rec.inv[ni].p == (const void*)(sb.p + t.begin) && rec.inv[ni].n == t.len, "invalid sequence reported"); ++ni; }
            if (t.k == UNSUPPORTED) { if (nu < rec.nu) sym_check(rec.uns[nu] == t.cp, "unsupported code point reported"); ++nu; }
        }
        sym_check(rec.ni == ni, "number of invalid sequences reported"); sym_check(rec.nu == nu, "number of unsupported code points reported");
        sym_trace(rec.ni); sym_trace(rec.nu);
    } else sym_check(rec.ni == 0 && rec.nu == 0, "measuring reports nothing");
#elif KK_ == 2 || KK_ == 3
    { int bits = sizeof(DC) * 8; u32 u = (u32)sym_value((unsigned)bits, "u"); int cnt = 1; if (KK_ == 3) { cnt = choose(CFG("clo", -1), CFG("chi", 4), "count"); if (cnt == CFG("chi", 4) && CFG("big", 0)) cnt = CFG("big", 0); }
      int w = 1; if (WC_ == 0) { u32 cp = DE_ >= 1000 ? tdec(DE_ - 1000, u) : bits == 8 ? (u < 0x80 ? u : 0xFFFD) : bits == 16 ? ((u & 0xF800) == 0xD800 ? 0xFFFD : u) : u; w = docwidth(cp); }
      if (what & 4) sym_concretize((std::uint64_t)w); w = (int)sym_concretize((std::uint64_t)w);
      for (int i = 0; i < cnt; ++i) put(u); body.w = cnt > 0 ? cnt * w : 0; if (w == 2) sym_cover("wide");
      if (cnt <= 0) sym_cover("no repetition");
    #if KK_ == 2 && !AL_
      finish(static_cast<DC>(u));
    #elif KK_ == 2
      finish(strf::fmt(static_cast<DC>(u)));
    #else
      if (cnt == 1) finish(strf::multi(static_cast<DC>(u), (short)cnt)); else finish(strf::multi(static_cast<DC>(u), cnt));
    #endif
    }
#elif KK_ == 4 || KK_ == 5
    { u32 u = (u32)sym_value(32, "c"); int cnt = 1; if (KK_ == 5) { cnt = choose(CFG("clo", -1), CFG("chi", 4), "count"); if (cnt == CFG("chi", 4) && CFG("big", 0)) cnt = CFG("big", 0); }
      int w = WC_ == 0 ? docwidth(u) : 1; w = (int)sym_concretize((std::uint64_t)w); if (w == 2) sym_cover("wide");
      u32 o[4]; int k; bool surr = (u & 0xFFFFF800) == 0xD800;
      if (DE_ >= 1000) { if (u >= 0xE000 && u <= 0xFFFF) { sym_assume(false); return; } unsigned b = tenc(DE_ - 1000, u); k = 1; o[0] = b < 0x100 ? b : '?'; if (b >= 0x100) sym_cover("unsupported"); }
      else if (DE_ == 32) { k = 1; o[0] = u; }
      else if (u > 0x10FFFF) { k = enc(DE_, 0xFFFD, o); sym_cover("invalid"); }
      else { if (surr) sym_cover("surrogate"); k = enc(DE_, u, o); }
      for (int i = 0; i < cnt; ++i) for (int j = 0; j < k; ++j) put(o[j]); body.w = cnt > 0 ? cnt * w : 0;
    #if KK_ == 4 && !AL_
      finish(static_cast<char32_t>(u));
    #elif KK_ == 4
      finish(strf::fmt(static_cast<char32_t>(u)));
    #else
      finish(strf::multi(static_cast<char32_t>(u), cnt));
    #endif
    }
#elif KK_ == 6
    { int lk = choose(0, 2, "lettercase"); bool b = choose(0, 1, "value"); static const char* tx[] = {"false", "FALSE", "False", "true", "TRUE", "True"}; auto lc = lk == 0 ? strf::lowercase : lk == 1 ? strf::uppercase : strf::mixedcase;
      body.ascii(tx[lk + 3 * b]); chooseal(body); al.fill = al.fill; Text<DC, 600> e2; Align a = al; aligned(e2, a, body); e2.w = body.w + (a.on && a.width > body.w ? a.width - body.w : 0);
    #if AL_
      px::check(e2, what, maxroom, true, strf::pack(lc), strf::fmt(b).set_alignment_format(afmt(al)));
    #else
      px::check(e2, what, maxroom, true, strf::pack(lc), b);
    #endif
    }
#endif
}
