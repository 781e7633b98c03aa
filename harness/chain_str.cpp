// C24, C15, C19: sequences of format functions on strings, see chain.h. cfg: k, first, what, dynamic (1: also type-erased source charsets). flags: DC_ the destination's character type
#ifndef DC_
#define DC_ char
#endif
#include <string>
#include <string_view>
#include "chain.h"
using namespace px;
typedef DC_ C;
enum { NONE, UNSAFE, IFDIFF, ALWAYS }; enum { UTF8, LATIN };
struct Fmt { Align a; int poli, cs, p; bool given, dyn; };
static Fmt f; static char buf[8]; static int n, kind, what, dyns;
template <class X> constexpr bool nocs() { return !std::decay_t<X>::has_charset(); }
template <class Y> __attribute__((noinline)) void verify(const Y& y) {
    typedef strf::detail::transcoding_policy TP;
    TP want = f.poli == NONE ? TP::no_transcode : f.poli == UNSAFE ? TP::unsafe : f.poli == IFDIFF ? TP::sani_only_if_different : TP::sani_unconditionally;
    sym_check(y.get_transcondig_policy() == want, "conversion policy");
    sym_check(y.has_charset() == f.given && y.has_static_charset() == (f.given && !f.dyn) && y.has_dynamic_charset() == (f.given && f.dyn), "has_charset");
    sym_check(y.has_string_precision() == (f.p >= 0), "has_string_precision");
    if constexpr (Y::has_charset()) sym_check(y.get_charset().id() == (f.cs == UTF8 ? strf::csid_utf8 : strf::csid_iso_8859_1), "charset given");
    if constexpr (Y::has_string_precision()) sym_check(y.precision() == (strf::width_t)f.p, "precision given");
    auto al = y.get_alignment_format(); sym_check(al.fill == f.a.fill && al.width == (strf::width_t)f.a.width && (int)al.alignment == (int)afmt(f.a).alignment, "alignment given");
    if constexpr (!std::is_same<C, char>::value && Y::get_transcondig_policy() == TP::no_transcode) { sym_cover("not printable"); return; }
    else {
    constexpr bool same = std::is_same<C, char>::value;
    bool raw = same && (f.poli == NONE || (f.poli == IFDIFF && f.cs == UTF8));
    if (f.poli == UNSAFE && f.cs == UTF8 && kind == 1) { sym_cover("unsafe"); return; }
    Text<C> body, e;
    for (int i = 0, w = 0; i < n && (f.p < 0 || w < f.p); ++w) {
        unsigned b = (unsigned char)buf[i]; int len = 1; u32 cp = b;
        if (f.cs == UTF8 && b >= 0x80) { if (kind == 2) { len = 2; cp = 0xC0u | ((unsigned char)buf[i + 1] & 0x3F); } else cp = 0xFFFD; }
        if (raw) { for (int j = 0; j < len; ++j) body.u[body.n++] = (C)buf[i + j]; ++body.w; } else body.ch(cp);
        i += len;
    }
    sym_cover(raw ? "copied" : "converted");
    aligned(e, f.a, body); check(e, what, 4, true, strf::pack(), y);
    }
}
template <class X> void walk(X x, int k) {
    if (k == 0) { verify(x); return; }
    auto next = [&](const auto& y) { walk(y, k - 1); };
    static const int PR[] = {0, 2}, WD[] = {3, 9};
    auto given = [&](int poli, int cs, bool dyn = false) { f.poli = poli; f.cs = cs; f.given = true; f.dyn = dyn; };
    strf::utf8_t<char> u; strf::iso_8859_1_t<char> l;
    switch (choose(0, dyns ? 25 : 23, "function")) {
    case 0: f.poli = IFDIFF; return step(x, FN_(.transcode()), next);
    case 1: f.poli = ALWAYS; return step(x, FN_(.sani()), next);
    case 2: f.poli = ALWAYS; return step(x, FN_(.sanitize()), next);
    case 3: f.poli = UNSAFE; return step(x, FN_(.unsafe_transcode()), next);
    case 4: f.poli = IFDIFF; if (choose(0, 1, "old name")) return step(x, FN_(.conv()), next); return step(x, FN_(.convert_charset()), next);
    case 5: f.poli = ALWAYS; return step(x, FN_(.sanitize_charset()), next);
    case 6: given(IFDIFF, LATIN); return step(x, FN_(.transcode(l)), next);
    case 7: given(IFDIFF, UTF8); return step(x, FN_(.transcode(u)), next);
    case 8: given(IFDIFF, LATIN); return step(x, FN_(.transcode_from(l)), next);
    case 9: given(IFDIFF, LATIN); return step(x, FN_(.convert_from_charset(l)), next);
    case 10: given(ALWAYS, UTF8); return step(x, FN_(.sani(u)), next);
    case 11: given(ALWAYS, UTF8); return step(x, FN_(.sanitize(u)), next);
    case 12: given(ALWAYS, LATIN); return step(x, FN_(.sanitize_from(l)), next);
    case 13: given(ALWAYS, UTF8); return step(x, FN_(.sanitize_from_charset(u)), next);
    case 14: given(UNSAFE, LATIN); return step(x, FN_(.unsafe_transcode(l)), next);
    case 15: given(UNSAFE, UTF8); return step(x, FN_(.unsafe_transcode(u)), next);
    case 16: { int p = f.p = PR[choose(0, 1, "p")]; return step(x, FN_(.p((strf::width_t)p)), next); }
    case 17: { f.a.fill = (u32)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "fill"); char c = (char)f.a.fill; return step(x, FN_(.fill(c)), next); }
    case 18: { f.a.fill = U'\u20AC'; return step(x, FN_(.fill(U'\u20AC')), next); }
    case 19: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 0; return step(x, FN_(< w), next); }
    case 20: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 1; return step(x, FN_(> w), next); }
    case 21: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 2; return step(x, FN_(^ w), next); }
    case 22: { f.a.fill = U'*'; f.a.width = 9; f.a.al = 2; Align a = f.a; return step(x, FN_(.set_alignment_format(afmt(a))), next); }
    case 23: { f.a = Align{true, U' ', 0, 1}; return step(x, FN_(.set_alignment_format(strf::default_alignment_format{})), next); }
#ifdef DYN_
    case 24: { given(IFDIFF, LATIN, true); strf::dynamic_charset<char> d = l.to_dynamic(); return step(x, FN_(.transcode(d)), next); }
    default: { given(ALWAYS, UTF8, true); strf::dynamic_charset<char> d = u.to_dynamic(); return step(x, FN_(.sani(d)), next); }
#else
    default: return;
#endif
    }
}
template <class S> static void begin(const S& s, int first, int k) {
    strf::utf8_t<char> u; strf::iso_8859_1_t<char> l;
    switch (first) {
    case 0: walk(strf::fmt(s), k); break;
    case 1: f.poli = IFDIFF; walk(strf::transcode(s), k); break;
    case 2: f.poli = IFDIFF; f.cs = LATIN; f.given = true; walk(strf::transcode(s, l), k); break;
    case 3: f.poli = UNSAFE; walk(strf::unsafe_transcode(s), k); break;
    case 4: f.poli = UNSAFE; f.cs = LATIN; f.given = true; walk(strf::unsafe_transcode(s, l), k); break;
    case 5: f.poli = ALWAYS; walk(strf::sani(s), k); break;
    case 6: f.poli = ALWAYS; f.given = true; walk(strf::sani(s, u), k); break;
    case 7: f.poli = IFDIFF; f.given = true; walk(strf::conv(s, u), k); break;
    case 8: f.a.width = 9; f.a.al = 1; walk(strf::right(s, 9), k); break;
    case 9: f.a.width = 9; f.a.al = 0; f.a.fill = '~'; walk(strf::left(s, 9, '~'), k); break;
    case 10: f.a.width = 9; f.a.al = 2; f.a.fill = U'\u20AC'; walk(strf::center(s, 9, U'\u20AC'), k); break;
    default: f.a.width = 9; f.a.al = 0; walk(strf::left(s, 9), k); break;
    }
}
extern "C" void sym_main() {
    f = Fmt{Align{true, U' ', 0, 1}, NONE, UTF8, -1, false, false}; what = CFG("what", 8); dyns = CFG("dynamic", 0); kind = choose(0, 2, "kind"); n = 4;
    auto asc = [&](const char* nm) { return (char)sym_range((std::uint64_t)0x20, (std::uint64_t)0x7E, nm); };
    buf[0] = asc("first"); buf[3] = asc("last"); buf[4] = 0;
    if (kind == 0) { buf[1] = asc("b"); buf[2] = 'x'; } else if (kind == 1) { buf[1] = (char)sym_range((std::uint64_t)0xF8, (std::uint64_t)0xFF, "b"); buf[2] = asc("c"); } else { buf[1] = (char)0xC3; buf[2] = (char)sym_range((std::uint64_t)0xA0, (std::uint64_t)0xBF, "b"); }
    int k = CFG("k", 2), first = CFG("first", -1); if (first < 0) first = choose(0, 11, "first");
    uni::Heap<char> h(4); for (int i = 0; i < 4; ++i) h[i] = buf[i];
    if (choose(0, 1, "form")) begin(std::string_view(h.p, 4), first, k); else begin((const char*)buf, first, k);
}
