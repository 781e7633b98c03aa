// C16: sizes and widths of very long arguments, whose sum reaches the maximum of width_t. Nothing is printed: counts are symbolic.
#include "printx.h"
using namespace px;
#ifndef C_
#define C_ char
#endif
namespace {
using C = C_; typedef std::int64_t i64;
const i64 MAXW = 0x7FFFFFFF;             // width_max in 1/65536
inline i64 lim(i64 x) { return x > MAXW ? MAXW : x; }
inline i64 cnt(const char* n) { return (i64)sym_range(0, CFG("top", 65535), n); }
template <class... A> void go(i64 size, i64 w, bool full, const A&... a) {   // w in 1/65536
    auto fp = strf::pack(strf::fast_width_t{});
    strf::full_premeasurements p; strf::measure<C>(&p, fp, a...);
    sym_check((i64)p.accumulated_size() == size, "size"); sym_check(p.accumulated_width().underlying_value() == lim(w), "width"); sym_check(p.remaining_width().underlying_value() == MAXW - lim(w), "remaining width");
    strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> p1; strf::measure<C>(&p1, fp, a...); sym_check((i64)p1.accumulated_size() == size, "size alone");
    i64 l = CFG("whole", 0) ? (i64)sym_range(0, 32767, "limit") << 16 : (i64)sym_range(0, MAXW, "limit"); auto wl = strf::width_t::from_underlying((std::int32_t)l);
    strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> p2{wl}; strf::measure<C>(&p2, fp, a...);
    sym_check(p2.accumulated_width().underlying_value() == (w < l ? w : l), "width up to a limit"); sym_check(p2.remaining_width().underlying_value() == (w < l ? l - w : 0), "remaining width up to a limit"); sym_check(p2.has_remaining_width() == (w < l), "has remaining width");
    if (full) { strf::full_premeasurements p3{wl}; strf::measure<C>(&p3, fp, a...); sym_check((i64)p3.accumulated_size() == size, "size with a limit"); sym_check(p3.accumulated_width().underlying_value() == (w < l ? w : l), "width with a limit"); }
    sym_cover(w >= MAXW ? "maximum reached" : "below the maximum");
}
}
extern "C" void sym_main() {
    int k = CFG("mode", 0); i64 a = cnt("a"), b = k ? cnt("b") : 0, c = k == 1 || k == 3 ? cnt("c") : 0;
    auto ma = strf::multi((C)'a', (std::ptrdiff_t)a), mb = strf::multi((C)'b', (std::ptrdiff_t)b), mc = strf::multi((C)'c', (std::ptrdiff_t)c);
    static const C t1[] = {'{', '}', '-', '{', '}', '{', '0', '}', 0};
    if (k == 0) go(a, a << 16, true, ma);
    else if (k == 1) go(a + b + c, (a + b + c) << 16, true, ma, mb, mc);
    else if (k == 2) go(a + b + a + 1, (a + b + a + 1) << 16, true, strf::tr(t1, ma, mb));
    else if (k == 3) go(a + b + c, (a + b + c) << 16, true, ma, strf::join(mb, mc));
    else if (k == 4) {   // alignment of a join whose parts are longer than the maximum
        i64 w = (i64)sym_range(0, 32767, "w"), s = a + b, t = s > w ? s : w;
        auto sp = strf::alignment_format{U'.', (strf::width_t)(std::int16_t)w, (strf::text_alignment)CFG("al", 1)};
        go(t, t << 16, true, strf::join_align((strf::width_t)(std::int16_t)w, sp.alignment, U'.')(ma, mb)); (void)sp;
    } else if (k == 5) { i64 w = (i64)sym_range(0, 32767, "w"), t = a > w ? a : w; go(t + b, (t + b) << 16, true, strf::multi((C)'a', (std::ptrdiff_t)a) > (strf::width_t)(std::int16_t)w, mb); }
}
