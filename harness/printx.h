// Checks one printable argument (or a whole argument list) against the expected text.
#pragma once
#include "sink.h"
#include <strf.hpp>
#include <strf/measure.hpp>
#include <strf/to_string.hpp>
#include <type_traits>
namespace px {
using uni::u32;
inline int choose(int lo, int hi, const char* name) { return (int)sym_concretize(sym_range((std::uint64_t)0, (std::uint64_t)(hi - lo), name)) + lo; }
template <class C> inline int encof() { return sizeof(C) == 1 ? 8 : sizeof(C) == 2 ? 16 : 32; }
template <class C, int CAP = 400> struct Text {
    C u[CAP]; int n = 0; int w = 0;      // w: width in characters under the fast rules of the printed kind (one per character)
    void ch(u32 c, int times = 1) { u32 o[4]; for (int i = 0; i < times; ++i) { int k = c < 0x80 ? (o[0] = c, 1) : uni::enc(encof<C>(), c, o); for (int j = 0; j < k; ++j) { sym_check(n < CAP, "harness text capacity"); u[n++] = static_cast<C>(o[j]); } ++w; } }
    void ascii(const char* s) { while (*s) ch((unsigned char)*s++); }
};
// fill, text, fill
struct Align { bool on; char32_t fill; int width; int al; };   // al 0 left 1 right 2 center
inline strf::alignment_format afmt(const Align& a) { return strf::alignment_format{a.fill, (strf::width_t)a.width, a.al == 0 ? strf::text_alignment::left : a.al == 1 ? strf::text_alignment::right : strf::text_alignment::center}; }
template <class T> inline void aligned(T& out, const Align& a, const T& body) {
    int f = a.on && a.width > body.w ? a.width - body.w : 0, l = a.al == 0 ? 0 : a.al == 1 ? f : f / 2;
    out.ch(a.fill, l); for (int i = 0; i < body.n; ++i) out.u[out.n++] = body.u[i]; out.w += body.w; out.ch(a.fill, f - l);
}
enum { PRE = 1, LIMIT = 2, CHUNK = 4, PLAIN = 8 };
template <class C, int CAP, class FP, class... A> inline void check(const Text<C, CAP>& e, int what, int maxroom, bool widthknown, const FP& fp, const A&... arg) {
    if (what & PRE) {
        strf::full_premeasurements pre; strf::measure<C>(&pre, fp, arg...);
        sym_check((std::int64_t)pre.accumulated_size() == e.n, "premeasured size is the printed size");
        strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> p1; strf::measure<C>(&p1, fp, arg...);
        sym_check((std::int64_t)p1.accumulated_size() == e.n, "size measured without width is the printed size");
        if (widthknown) sym_check(pre.accumulated_width() == (strf::width_t)e.w, "premeasured width is the width");
    }
    if ((what & LIMIT) && widthknown) {
        int lim = choose(0, e.w + 2, "limit"); strf::width_t wl = (strf::width_t)lim;
        strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> p2{wl}; strf::measure<C>(&p2, fp, arg...);
        sym_check(p2.accumulated_width() == (e.w < lim ? (strf::width_t)e.w : wl), "width measured up to a limit");
        sym_check(p2.remaining_width() == (e.w < lim ? (strf::width_t)(lim - e.w) : (strf::width_t)0), "remaining width");
        strf::full_premeasurements p3{wl}; strf::measure<C>(&p3, fp, arg...);
        sym_check((std::int64_t)p3.accumulated_size() == e.n, "size is exact also when the width limit is reached");
        sym_check(p3.accumulated_width() == (e.w < lim ? (strf::width_t)e.w : wl), "width limit together with the size");
        sym_cover(lim < e.w ? "width limit reached" : "width limit not reached");
    }
    if (what & (CHUNK | PLAIN)) {
        int room = what & CHUNK ? choose(0, maxroom, "room") : 64;
        Sink<C, 6, CAP> s(room, 0); strf::to(static_cast<strf::destination<C>&>(s)).with(fp)(arg...); s.finish();
        sym_check(s.good(), "destination still good");
        sym_check(s.n == e.n, "number of characters printed");
        if (s.n == e.n) for (int i = 0; i < e.n; ++i) { sym_check(s.out[i] == e.u[i], "printed characters"); sym_trace(uni::val(s.out[i])); }
        if (s.recycles) sym_cover("several chunks");
    }
}
}
