// C23: the facet in effect for an argument. Values of facets are symbolic; expected: last applicable facet of the flattened list, outer facets first.
// M_ 0: own categories and printable types in every nesting (CX_ context, S1_ shape of the first list element);
// M_ 1: overriders; M_ 2: the library's categories constrained on representative types.
#include "printx.h"
using namespace px;
#ifndef C_
#define C_ char
#endif
#ifndef M_
#define M_ 0
#endif
#ifndef CX_
#define CX_ 0
#endif
#ifndef S1_
#define S1_ 0
#endif
namespace fx {
template <int N> struct Cat; template <int K> struct R {}; template <int K> struct P {};
template <int N> struct Facet { using category = Cat<N>; unsigned char v; };
template <int N> struct Cat { static constexpr bool constrainable = true; static Facet<N> get_default() noexcept { return Facet<N>{(unsigned char)('0' + N)}; } };
template <class CharT> struct Pr { unsigned char a, b; int fill; void operator()(strf::destination<CharT>& d) const { for (int i = 0; i < fill; ++i) strf::put(d, (CharT)'.'); strf::put(d, (CharT)a); strf::put(d, (CharT)b); } };
template <class T> struct InA { static constexpr bool value = std::is_same<T, R<0>>::value || std::is_same<T, R<1>>::value; };
template <class T> struct InB { static constexpr bool value = std::is_same<T, R<1>>::value || std::is_same<T, R<2>>::value; };
template <class T> struct Is0 { static constexpr bool value = std::is_same<T, R<0>>::value; };
template <class T> struct Not0 { static constexpr bool value = !std::is_same<T, R<0>>::value; };
}
namespace strf {
template <int K> struct printable_def<fx::P<K>> {
    using representative = fx::R<K>; using forwarded_type = fx::P<K>; using format_specifiers = strf::tag<strf::alignment_format_specifier>; using is_overridable = std::true_type;
    template <class C, class Pre, class FP> static fx::Pr<C> make_printer(strf::tag<C>, Pre* pre, const FP& fp, fx::P<K>) { pre->add_size(2); pre->add_width(2); return {strf::get_facet<fx::Cat<0>, fx::R<K>>(fp).v, strf::get_facet<fx::Cat<1>, fx::R<K>>(fp).v, 0}; }
    template <class C, class Pre, class FP, class... T> static fx::Pr<C> make_printer(strf::tag<C>, Pre* pre, const FP& fp, strf::value_and_format<T...> x) {
        int w = x.get_alignment_format().width.round(), f = w > 2 ? w - 2 : 0; pre->add_size(2 + f); pre->add_width((strf::width_t)(2 + f)); return {strf::get_facet<fx::Cat<0>, fx::R<K>>(fp).v, strf::get_facet<fx::Cat<1>, fx::R<K>>(fp).v, f}; }
};
}
namespace {
using namespace fx; using C = C_; typedef Text<C, 200> T; typedef unsigned char uc;
struct Leaf { int mask, cat; uc v; };
struct Env { Leaf l[40]; int n = 0; void add(int m, int c, uc v) { l[n++] = Leaf{m, c, v}; }
    uc get(int cat, int k) const { uc r = (uc)('0' + cat); for (int i = 0; i < n; ++i) if (l[i].cat == cat && (l[i].mask >> k & 1)) r = l[i].v; return r; } };
Env plus(const Env& a, const Env& b) { Env r = a; for (int i = 0; i < b.n; ++i) r.l[r.n++] = b.l[i]; return r; }
uc sv() { uc v; sym_bytes(&v, 1, "facet"); if (sizeof(C) == 1) sym_assume(v < 128); return v; }
enum { A = 3, B = 6, ALL = 7 };   // R<0> R<1>, R<1> R<2>
Facet<0> f0(Env& e, int m) { uc v = sv(); e.add(m, 0, v); return Facet<0>{v}; }
Facet<1> f1(Env& e, int m) { uc v = sv(); e.add(m, 1, v); return Facet<1>{v}; }
using strf::constrain; using strf::pack;
template <int S> struct Shape;
template <> struct Shape<0> { static auto make(Env& e) { return f0(e, ALL); } };
template <> struct Shape<1> { static auto make(Env& e) { return f1(e, ALL); } };
template <> struct Shape<2> { static auto make(Env& e) { return constrain<InA>(f0(e, A)); } };
template <> struct Shape<3> { static auto make(Env& e) { auto x = f0(e, B); return constrain<InB>(x); } };
template <> struct Shape<4> { static auto make(Env& e) { auto x = f0(e, ALL); auto y = constrain<InA>(f0(e, A)); auto z = f1(e, ALL); return pack(x, y, z); } };
template <> struct Shape<5> { static auto make(Env& e) { auto x = f0(e, B); auto y = f1(e, B); return constrain<InB>(pack(x, y)); } };
template <> struct Shape<6> { static auto make(Env& e) { auto x = f0(e, A & B); return constrain<InA>(constrain<InB>(x)); } };
template <> struct Shape<7> { static auto make(Env& e) { auto x = f0(e, ALL); auto y = f1(e, A); auto z = f1(e, A & B); return pack(pack(x), constrain<InA>(y), constrain<InA>(pack(constrain<InB>(z)))); } };
template <> struct Shape<8> { static auto make(Env&) { return pack(); } };
template <> struct Shape<9> { static auto make(Env& e) { auto x = f0(e, A); auto y = f0(e, ALL); auto z = f1(e, B); return pack(pack(pack(), constrain<InA>(x)), pack(y, constrain<InB>(z))); } };
template <> struct Shape<10> { static auto make(Env& e) { auto x = f1(e, B); auto y = f0(e, A & B); return constrain<InB>(pack(x, constrain<InA>(pack(y)), pack())); } };
const int NS = 11;
void put(T& o, uc c) { o.u[o.n++] = (C)c; ++o.w; }
template <int K> void arg(T& o, const Env& e) { put(o, e.get(0, K)); put(o, e.get(1, K)); }
void all(T& o, const Env& e) { arg<0>(o, e); arg<1>(o, e); arg<2>(o, e); }
P<0> p0; P<1> p1; P<2> p2;
Sink<C, 6, 400>* S;
strf::destination<C>& dst() { return static_cast<strf::destination<C>&>(*S); }
template <class F> void run(const T& e, F f) {
    int room = choose(0, CFG("room", 0), "room"); Sink<C, 6, 400> s(CFG("room", 0) ? room : 64, 0); S = &s; f(); s.finish(); sym_check(s.good(), "destination good"); sym_check(s.n == e.n, "number of characters");
    if (s.n == e.n) for (int i = 0; i < e.n; ++i) { sym_check(s.out[i] == e.u[i], "printed with the facet in effect"); sym_trace(uni::val(s.out[i])); }
}
template <class FP, class Rk> void get(const FP& fp, const Env& e, int k) {
    sym_check((strf::get_facet<Cat<0>, Rk>(fp).v) == e.get(0, k), "get_facet, first category"); sym_check((strf::get_facet<Cat<1>, Rk>(fp).v) == e.get(1, k), "get_facet, second category");
    sym_check((strf::use_facet<Cat<0>, Rk>(fp).v) == e.get(0, k) && (fp.template get_facet<Cat<1>, Rk>().v) == e.get(1, k), "use_facet and the member");
}
template <class FP> void gets(const FP& fp, const Env& e) { get<FP, R<0>>(fp, e, 0); get<FP, R<1>>(fp, e, 1); get<FP, R<2>>(fp, e, 2); }
}
#if M_ == 0
namespace {
template <int S2, int S3> void triple() {
    Env ea, eb, ec; auto a = Shape<S1_>::make(ea); auto b = Shape<S2>::make(eb); auto c = Shape<S3>::make(ec); Env e = plus(plus(ea, eb), ec);
    gets(pack(a, b, c), e); gets(pack(pack(a, b), c), e); gets(pack(a, pack(b, c)), e);
    auto ab = pack(a, b); auto m = strf::facets_pack<decltype(a), decltype(b), decltype(c)>(strf::merge_1st{}, ab, c); gets(m, e); auto m2 = m; gets(m2, e);
    strf::facets_pack<const decltype(a)&, decltype(b), const decltype(c)&> r{a, b, c}; gets(r, e);
    sym_cover(e.get(0, 0) == e.get(0, 2) ? "same facet" : "different facets");
}
#ifdef ALL_
template <int S2> void triples() { triple<S2, 0>(); triple<S2, 1>(); triple<S2, 2>(); triple<S2, 3>(); triple<S2, 4>(); triple<S2, 5>(); triple<S2, 6>(); triple<S2, 7>(); triple<S2, 8>(); triple<S2, 9>(); triple<S2, 10>(); }
#else
template <int S2> void triples() { triple<S2, (S1_ + S2) % 11>(); triple<S2, (S1_ + 2 * S2 + 4) % 11>(); triple<S2, (2 * S1_ + S2 + 7) % 11>(); }
#endif
template <int S2> void pair() {
    Env ex, ey; auto x = Shape<S1_>::make(ex); auto y = Shape<S2>::make(ey); Env e = plus(ex, ey), r = plus(ey, ex); const Env d{}; T t;
#if CX_ == 1      // lists of the printing syntax
    all(t, e); run(t, [&] { strf::to(dst()).with(x, y)(p0, p1, p2); });
    run(t, [&] { strf::to(dst()).with(x).with(y)(p0, p1, p2); });
    run(t, [&] { strf::to(dst()).with(x)(y, p0, p1, p2); });
    run(t, [&] { strf::to(dst())(x, y, p0, p1, p2); });
    run(t, [&] { strf::to(dst()).with()(pack(x, y), p0, p1, p2); });
    run(t, [&] { auto k = strf::to(dst()).with(x); k.with(y)(p0, p1, p2); });
    run(t, [&] { auto k = strf::to(dst()).with(x); const auto j = std::move(k).with(y); j(p0, p1, p2); });
    run(t, [&] { strf::to(dst()).with(x).no_reserve().with(y)(p0, p1, p2); });
    T q; arg<1>(q, e); put(q, '\n'); run(q, [&] { strf::to(dst()).with(x).line(y, p1); });
#elif CX_ == 2    // inner lists
    arg<0>(t, ex); all(t, e); all(t, ex); arg<1>(t, e); arg<2>(t, ex);
    run(t, [&] { strf::to(dst()).with(x)(p0, strf::with(y)(p0, p1, p2), p0, p1, p2, strf::with(y)(p1), p2); });
    T q; arg<1>(q, d); all(q, e); arg<2>(q, ex); arg<0>(q, d); run(q, [&] { strf::to(dst())(p1, strf::with(x)(strf::with(y)(p0, p1, p2), p2), p0); });
    T z; all(z, e); all(z, r); all(z, d); run(z, [&] { strf::to(dst())(strf::with(x, y)(p0, p1, p2), strf::with(y, x)(p0, p1, p2), p0, p1, p2, strf::with()(strf::with(x)())); });
#elif CX_ == 3    // joins, formatted arguments
    arg<0>(t, ex); put(t, '.'); put(t, '.'); arg<1>(t, e); arg<2>(t, e); arg<1>(t, ex);
    check(t, 11, 0, true, strf::pack(x), strf::join(p0, strf::with(y)(strf::right(p1, 4))), strf::with(y)(strf::join(p2)), p1);
    T q; put(q, '*'); arg<0>(q, ex); arg<2>(q, e); arg<1>(q, ex); run(q, [&] { strf::to(dst()).with(x)(strf::join_right(7, U'*')(p0, strf::with(y)(p2), p1)); });
    T z; put(z, '.'); arg<0>(z, e); arg<1>(z, e); put(z, '.'); arg<2>(z, ex); run(z, [&] { strf::to(dst()).with(x)(strf::with(y)(strf::fmt(p0) > 3, p1), strf::fmt(p2) > 3); });
#elif CX_ == 4    // templates and ranges
    static const C pat[] = {'{', '1', '}', '-', '{', '0', '}', '{', '1', '}', 0}; arg<2>(t, e); put(t, '-'); arg<1>(t, ex); arg<2>(t, e);
    run(t, [&] { strf::to(dst()).with(x).tr(pat, p1, strf::with(y)(p2)); }); run(t, [&] { strf::to(dst()).tr(x, pat, p1, strf::with(y)(p2)); }); T tt; arg<2>(tt, e); put(tt, '-'); arg<1>(tt, e); arg<2>(tt, e); run(tt, [&] { strf::to(dst()).tr(x, y, pat, p1, p2); }); run(tt, [&] { strf::to(dst()).with(x).tr(y, pat, p1, p2); });
    T tl; arg<2>(tl, e); put(tl, '-'); arg<1>(tl, e); arg<2>(tl, e); put(tl, '\n'); run(tl, [&] { strf::to(dst()).with(x, y).trline(pat, p1, p2); });run(t, [&] { strf::to(dst()).with(x)(strf::tr(pat, p1, strf::with(y)(p2))); }); 
    T q; arg<2>(q, e); put(q, '-'); arg<1>(q, e); arg<2>(q, e); run(q, [&] { strf::to(dst()).with(x)(strf::with(y)(strf::tr(pat, p1, p2))); });
    P<1> el[2]; static const C sep[] = {';', 0}; T z; arg<1>(z, ex); put(z, ';'); arg<1>(z, ex); arg<1>(z, e); arg<1>(z, e); put(z, '.'); arg<1>(z, e); put(z, '.'); arg<1>(z, e);
    run(z, [&] { strf::to(dst()).with(x)(strf::separated_range(el, sep), strf::with(y)(strf::range(el), strf::fmt_range(el) > 3)); });
#elif CX_ == 5    // measuring, reserving, strings
    arg<0>(t, ex); all(t, e); arg<1>(t, ex); check(t, 15, CFG("rooms", 3), true, strf::pack(x), p0, strf::with(y)(p0, p1, p2), p1);
    auto s = strf::to_basic_string<C>.with(x).reserve_calc()(p0, strf::with(y)(p0, p1, p2), p1); sym_check((int)s.size() == t.n, "string size"); for (int i = 0; i < t.n; ++i) sym_check(s[(size_t)i] == t.u[i], "string");
    auto s2 = strf::to_basic_string<C>.reserve(3).with(x)(y, p0, p1); T q; arg<0>(q, e); arg<1>(q, e); sym_check((int)s2.size() == q.n, "string size"); for (int i = 0; i < q.n; ++i) sym_check(s2[(size_t)i] == q.u[i], "string");
#endif
    (void)r; sym_cover(e.get(0, 0) == e.get(0, 2) ? "same facet" : "different facets");
}
}
extern "C" void sym_main() {
    switch (choose(CFG("lo", 0), CFG("hi", NS - 1), "shape")) {
#if CX_ == 0
  #define G_(n) case n: triples<n>(); break;
#else
  #define G_(n) case n: pair<n>(); break;
#endif
    G_(0) G_(1) G_(2) G_(3) G_(4) G_(5) G_(6) G_(7) G_(8) G_(9) G_(10)
    }
}
#elif M_ == 1
namespace {
struct Ov { using category = strf::printable_overrider_c_of<P<0>>; uc v;     // prints one character
    template <class Ch, class FP> void print(strf::destination<Ch>& d, const FP&, P<0>) const { strf::put(d, (Ch)v); strf::put(d, (Ch)'!'); }
    template <class Ch, class FP, class... X> void print(strf::destination<Ch>& d, const FP&, const strf::value_and_format<X...>&) const { strf::put(d, (Ch)v); strf::put(d, (Ch)'f'); } };
template <class Ch> struct OPr { uc v; char c; void operator()(strf::destination<Ch>& d) const { strf::put(d, (Ch)v); strf::put(d, (Ch)c); } };
struct Om { using category = strf::printable_overrider_c_of<P<0>>; uc v;
    template <class Ch, class Pre, class FP> OPr<Ch> make_printer(strf::tag<Ch>, Pre* p, const FP&, P<0>) const { p->add_size(2); p->add_width(2); return {v, '!'}; }
    template <class Ch, class Pre, class FP, class... X> OPr<Ch> make_printer(strf::tag<Ch>, Pre* p, const FP&, const strf::value_and_format<X...>&) const { p->add_size(2); p->add_width(2); return {v, 'f'}; } };
struct Sel { int kind = 0; uc v = 0; };   // kind 0 not overridden
Sel then(Sel a, Sel b) { return b.kind ? b : a; }                             // kind 1 overrider, 2 explicitly not overridden, 0 nothing said
template <int S> struct Sh;
template <> struct Sh<0> { static auto make(Sel& s) { s = {1, sv()}; return Ov{s.v}; } };
template <> struct Sh<1> { static auto make(Sel& s) { s = {1, sv()}; return constrain<Is0>(Ov{s.v}); } };
template <> struct Sh<2> { static auto make(Sel& s) { s = {}; return constrain<Not0>(Ov{sv()}); } };
template <> struct Sh<3> { static auto make(Sel& s) { s = {1, sv()}; return Om{s.v}; } };
template <> struct Sh<4> { static auto make(Sel& s) { s = {2, 0}; return strf::dont_override<R<0>>{}; } };
template <> struct Sh<5> { static auto make(Sel& s) { s = {1, sv()}; uc u = sv(); return pack(Ov{u}, constrain<InA>(pack(Om{s.v})), constrain<Not0>(Ov{u})); } };
template <> struct Sh<6> { static auto make(Sel& s) { s = {2, 0}; return pack(Om{sv()}, constrain<Is0>(strf::dont_override<R<0>>{})); } };
template <> struct Sh<7> { static auto make(Sel& s) { s = {}; return pack(constrain<Not0>(strf::dont_override<R<0>>{}), Facet<0>{(uc)'a'}); } };
void sel(T& o, Sel s, bool f) { if (s.kind == 1) { put(o, s.v); put(o, f ? 'f' : '!'); } else { if (f) put(o, '.'); put(o, '0'); put(o, '1'); } }
template <class X, class Y, class Z> void measured(const X&, const Y&, const Z&, const T&, Sel, Sel, std::false_type) {}
template <class X, class Y, class Z> void measured(const X& x, const Y& y, const Z& reset, const T& t, Sel s, Sel sx, std::true_type) {   // print() alone gives no size: needs make_printer
    T q; sel(q, sx, false); sel(q, s, false); sel(q, s, true); sel(q, sx, true); run(q, [&] { strf::to(dst()).with(x, reset)(p0, strf::with(y, reset)(p0, strf::fmt(p0) > 3), strf::fmt(p0) > 3); });
    P<0> el[2]; T z; sel(z, s, false); sel(z, s, false); sel(z, s, true); sel(z, s, true); run(z, [&] { strf::to(dst()).with(x)(strf::with(y, reset)(strf::range(el), strf::fmt_range(el) > 3)); });
    check(t, 11, 0, true, strf::pack(x, y, reset), p0, strf::fmt(p0) > 3, p1);
}
constexpr bool mp(int n) { return n != 0 && n != 1 && n != 5; }
template <int S2> void pair() {
    Sel sx, sy; auto x = Sh<S1_>::make(sx); auto y = Sh<S2>::make(sy); Sel s = then(sx, sy);
    auto reset = strf::pack(Facet<0>{(uc)'0'}, Facet<1>{(uc)'1'}); T t; sel(t, s, false); sel(t, s, true); put(t, '0'); put(t, '1');
    run(t, [&] { strf::to(dst()).with(x, y, reset)(p0, strf::fmt(p0) > 3, p1); }); run(t, [&] { strf::to(dst()).with(x).with(y, reset)(p0, strf::fmt(p0) > 3, p1); }); run(t, [&] { strf::to(dst()).with(x)(y, reset, p0, strf::fmt(p0) > 3, p1); });
    static const C pat[] = {'{', '1', '}', '{', '0', '}', 0}; T w; sel(w, s, true); sel(w, s, false); run(w, [&] { strf::to(dst()).with(x, y, reset).tr(pat, p0, strf::fmt(p0) > 3); }); run(w, [&] { strf::to(dst()).with(x, y, reset)(strf::join(strf::fmt(p0) > 3, p0)); });
    P<0> el[2]; T z; sel(z, s, false); sel(z, s, false); sel(z, s, true); sel(z, s, true); run(z, [&] { strf::to(dst()).with(x, y, reset)(strf::range(el), strf::fmt_range(el) > 3); });
    measured(x, y, reset, t, s, sx, std::integral_constant<bool, mp(S1_) && mp(S2)>{}); sym_cover(s.kind == 1 ? "overridden" : "not overridden");
}
}
extern "C" void sym_main() {
    switch (choose(0, 7, "shape")) {
  #define G_(n) case n: pair<n>(); break;
    G_(0) G_(1) G_(2) G_(3) G_(4) G_(5) G_(6) G_(7)
    }
}
#else
namespace {
template <class Rp> struct Only { template <class X> struct f { static constexpr bool value = std::is_same<X, Rp>::value; }; template <class X> struct no { static constexpr bool value = !std::is_same<X, Rp>::value; }; };
struct Wc { using category = strf::width_calculator_c; int w;      // width of everything: w per code unit
    template <class Cs> strf::width_t char_width(Cs, typename Cs::code_unit) const { return (strf::width_t)w; }
    template <class Cs> strf::width_t str_width(Cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { std::ptrdiff_t n = (e - b) * w; return n < lim.round() ? (strf::width_t)n : lim; }
    template <class Cs> strf::width_and_ptr<typename Cs::code_unit> str_width_and_pos(Cs, strf::width_t lim, const typename Cs::code_unit* b, const typename Cs::code_unit* e) const { std::ptrdiff_t n = e - b, m = w ? lim.floor() / w : n; if (m > n) m = n; return {(strf::width_t)(m * w), b + m}; } };
template <class FP, class... X> void print(Sink<C, 6, 400>& s, const FP& fp, const X&... a) { strf::to(static_cast<strf::destination<C>&>(s)).with(fp)(a...); s.finish(); }
bool eq(const Sink<C, 6, 400>& a, const Sink<C, 6, 400>& b) { if (a.n != b.n) return false; bool r = true; for (int i = 0; i < a.n; ++i) r &= a.out[i] == b.out[i]; return r; }
template <class Rp, class F, class... X> void only(const F& f, const X&... a) {
    const auto reg = strf::pack(f); const auto none = strf::pack(); const auto yes = strf::pack(constrain<Only<Rp>::template f>(f)); const auto no = strf::pack(constrain<Only<Rp>::template no>(f));
    Sink<C, 6, 400> s1(64, 0), s2(64, 0), s3(64, 0), s4(64, 0), s5(64, 0), s6(64, 0); print(s1, reg, a...); print(s2, none, a...); print(s3, yes, a...); print(s4, no, a...);
    sym_check(eq(s3, s1), "a facet constrained to the argument's representative type is in effect"); sym_check(eq(s4, s2), "a facet constrained to other types has no effect");
    strf::to(static_cast<strf::destination<C>&>(s5))(strf::with(yes)(a...)); s5.finish(); sym_check(eq(s5, s1), "inner list, constrained to the argument's type"); strf::to(static_cast<strf::destination<C>&>(s6)).with(reg)(strf::with(no)(a...)); s6.finish(); sym_check(eq(s6, s1), "inner list constrained to other types, outer facet stays");
    sym_cover(eq(s1, s2) ? "no difference" : "different"); for (int i = 0; i < s1.n; ++i) sym_trace(uni::val(s1.out[i]));
    strf::full_premeasurements m1, m2, m3, m4; strf::measure<C>(&m1, reg, a...); strf::measure<C>(&m2, none, a...); strf::measure<C>(&m3, yes, a...); strf::measure<C>(&m4, no, a...);
    sym_check(m3.accumulated_size() == m1.accumulated_size() && m3.accumulated_width() == m1.accumulated_width(), "measured with the constrained facet"); sym_check(m4.accumulated_size() == m2.accumulated_size() && m4.accumulated_width() == m2.accumulated_width(), "measured without the facet constrained to other types");
    sym_check((int)m1.accumulated_size() == s1.n, "size");
}
#define NC_ 32
strf::lettercase lc() { static const strf::lettercase k[] = {strf::lettercase::lower, strf::lettercase::mixed, strf::lettercase::upper}; return k[choose(0, 2, "lettercase")]; }
template <int Base> auto np() { char32_t s = (char32_t)sym_range(0x21, 0x7E, "separator"); return strf::numpunct<Base>{1, 2}.thousands_sep(s); }
template <class T> void kf2(const T& d) {   // known finding 2; the other cases go through only()
    auto f = lc(); Sink<C, 6, 400> s1(64, 0), s2(64, 0), s3(64, 0), s4(64, 0), s5(64, 0); print(s1, pack(f), d); print(s2, pack(), d); print(s3, pack(constrain<Only<double>::f>(f)), d); print(s4, pack(constrain<Only<double>::no>(f)), d); print(s5, pack(constrain<std::is_floating_point>(f)), d);
    sym_check(eq(s3, s1), "KF2 lettercase constrained to double is in effect for a double printed without format"); sym_check(eq(s4, s2), "KF2 lettercase constrained to types other than double is not in effect for a double"); sym_check(eq(s5, s1), "lettercase constrained to floating-point types");
}
int pick, seq;   // one case per path
#define O(R) if (seq++ == pick) only<R>
template <class I> void ints() {
    const I v = (I)sym_range(0x5D, 0x6F, "value"); O(I)(lc(), strf::hex(v)); O(I)(lc(), *strf::hex(v)); O(I)(lc(), *strf::hex(v) > 9); O(I)(lc(), *strf::hex(v).p(4)); O(I)(lc(), *strf::bin(v)); O(I)(lc(), *strf::bin(v) > 12); O(I)(lc(), *strf::fmt(v).base(16)); O(I)(lc(), *strf::oct(v).pad0(6)); O(I)(lc(), *!strf::hex(v)); O(I)(lc(), *!strf::bin(v));
    O(I)(np<10>(), !strf::dec(v)); O(I)(np<16>(), !strf::hex(v)); O(I)(np<8>(), !strf::oct(v)); O(I)(np<2>(), !strf::bin(v)); O(I)(np<10>(), !strf::dec(v) > 8); O(I)(np<16>(), !strf::fmt(v).base(16)); O(I)(np<2>(), !strf::fmt(v).base(2)); O(I)(np<8>(), !strf::fmt(v).base(8)); O(I)(np<10>(), !strf::fmt(v).base(10)); O(I)(strf::pack(np<10>(), lc()), !strf::dec(v), *strf::hex(v));
}
}
extern "C" void sym_main() {
    pick = choose(0, NC_, "case"); seq = 0;
#if CX_ == 0
  #ifdef ALL_
    switch (choose(0, 9, "type")) { case 0: ints<signed char>(); break; case 1: ints<unsigned char>(); break; case 2: ints<short>(); break; case 3: ints<unsigned short>(); break; case 4: ints<int>(); break; case 5: ints<unsigned>(); break; case 6: ints<long>(); break; case 7: ints<unsigned long>(); break; case 8: ints<long long>(); break; default: ints<unsigned long long>(); }
  #else
    switch (choose(0, 3, "type")) { case 0: ints<signed char>(); break; case 1: ints<unsigned short>(); break; case 2: ints<int>(); break; default: ints<unsigned long long>(); }
  #endif
#elif CX_ == 1
    bool b = choose(0, 1, "bool"); O(bool)(lc(), b); O(bool)(lc(), strf::fmt(b)); O(bool)(lc(), strf::center(b, 8, U'*')); O(bool)(lc(), strf::join(b, b)); static const C t[] = {'{', '}', '{', '0', '}', 0}; O(bool)(lc(), strf::tr(t, b)); bool el[2] = {b, !b}; O(bool)(lc(), strf::range(el)); O(bool)(lc(), strf::fmt_range(el) > 6);
    const void* p = (const void*)(choose(0, 1, "p") ? 0xABCDEFul : 7ul); O(const void*)(lc(), p); O(const void*)(lc(), strf::right(p, 20)); O(const void*)(lc(), strf::join_right(12)(p)); void* q = const_cast<void*>(p); O(const void*)(lc(), q);
#elif CX_ == 2
    Wc w{choose(0, 3, "w")}; static const C s[] = {'a', 'b', 'c', 0}; using ST = strf::string_input_tag<C>; C c = (C)'x';
    O(ST)(w, s); O(ST)(w, strf::right(s, 9)); O(ST)(w, strf::fmt(s).p(5)); O(ST)(w, strf::sani(s) > 8); O(ST)(w, strf::sani(s).p(4) > 8); O(ST)(w, strf::join_right(10)(s)); O(ST)(w, strf::unsafe_transcode(s) > 7);
    O(C)(w, c); O(C)(w, strf::fmt(c) > 4); O(C)(w, strf::multi(c, 2) > 7); O(C)(w, strf::join_center(9)(c)); O(char32_t)(w, U'x'); O(char32_t)(w, strf::fmt(U'x') > 4); O(char32_t)(w, strf::join_right(5)(U'x'));
    static const C t[] = {'u', '{', '}', 'v', 0}; O(strf::tr_string_tag<C>)(w, strf::join_right(9)(strf::tr(t, 7))); static const C t0[] = {'u', 'v', 0}; O(strf::tr_string_tag<C>)(w, strf::join_right(9)(strf::tr(t0)));
    static const C* el[] = {s, s}; O(ST)(w, strf::fmt_range(el) > 5); O(ST)(w, strf::join_right(16)(strf::separated_range(el, t0)));
  #ifdef C2_
    using D = C2_; static const D s2[] = {'a', 'b', 'c', 0}; using S2 = strf::string_input_tag<D>; O(S2)(w, strf::transcode(s2)); O(S2)(w, strf::transcode(s2) > 9); O(S2)(w, strf::transcode(s2).p(4) > 9); O(S2)(w, strf::unsafe_transcode(s2) > 9); O(S2)(w, strf::unsafe_transcode(s2).p(5)); O(S2)(w, strf::join_right(9)(strf::transcode(s2)));
  #endif
#else
    double d = 1e300; if (seq++ == pick) kf2(d); if (seq++ == pick) kf2(strf::fmt(d)); O(double)(lc(), strf::hex(d)); O(double)(lc(), strf::sci(d)); O(double)(lc(), strf::right(d, 20)); float f = 1e30f; O(float)(lc(), f); O(float)(lc(), strf::hex(f)); O(float)(lc(), strf::right(f, 15)); O(double)(np<10>(), !strf::fixed(123456.5)); O(float)(np<10>(), !strf::fixed(1234.5f));
#endif
    if (pick >= seq) sym_cover("no case"); if (seq > NC_) sym_check(false, "harness: raise NC_");
}
#endif
