// C22: ranges, separators and joins. Expected text: concatenation of the parts.
// C_ character type; EK_ elements: 0 character, 1 integer, 2 string; FK_: 0 range, 1 separated_range, 2 fmt_range, 3 fmt_separated_range,
// 4 range with operation, 5 separated_range with operation; EN_ entry: 0 iterators (a minimal iterator class), 1 container, 2 array, 3 initializer list;
// CX_ context: 0 alone, 1 among arguments, 2 join, 3 aligned join, 4 template, 5 nested aligned joins, 6 range of ranges
#include "printx.h"
#include <initializer_list>
#include <iterator>
using namespace px;
#ifndef C_
#define C_ char
#endif
#ifndef EK_
#define EK_ 0
#endif
#ifndef FK_
#define FK_ 0
#endif
#ifndef EN_
#define EN_ 0
#endif
#ifndef CX_
#define CX_ 0
#endif
namespace {
using C = C_; typedef Text<C, 300> T;
using SV = strf::detail::simple_string_view<C>;
#if EK_ == 0
using V = C;
#elif EK_ == 1
using V = int;
#else
using V = SV;
#endif
inline void put(T& o, C c) { sym_check(o.n < 300, "harness capacity"); o.u[o.n++] = c; ++o.w; }
inline void cat(T& o, const T& a) { sym_check(o.n + a.n <= 300, "harness capacity"); for (int i = 0; i < a.n; ++i) o.u[o.n++] = a.u[i]; o.w += a.w; }
inline C anyc(const char* nm) { C c; sym_bytes(&c, sizeof c, nm); return c; }
struct It {   // the least an iterator needs
    using value_type = V; using difference_type = std::ptrdiff_t; using pointer = const V*; using reference = const V&; using iterator_category = std::input_iterator_tag;
    const V* p; const V& operator*() const { return *p; } It& operator++() { ++p; return *this; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; }
};
struct Box { using const_iterator = It; using value_type = V; const V* b; const V* e; It begin() const { return It{b}; } It end() const { return It{e}; } };
struct Op {
#if EK_ == 0
    auto operator()(C c) const { return strf::multi(c, 2); }
#elif EK_ == 1
    auto operator()(int v) const { return strf::dec(v).pad0(4); }
#else
    auto operator()(SV s) const { return strf::join_right(2, U'.')(s, (C)'!'); }
#endif
};
}
extern "C" void sym_main() {
    const int what = CFG("what", 8), maxroom = CFG("maxroom", 8);
#if EN_ >= 2
    const int n = 3;
#else
    const int n = choose(CFG("nlo", 0), CFG("n", 3), "count");
#endif
    uni::Heap<V> h(n); T el[8]; C buf[32]; int bn = 0; int prec = 0, fmtk = 0, ew = 0;
#if FK_ == 2 || FK_ == 3
    fmtk = choose(0, CFG("fmts", 2), "format");   // 0 none, 1 alignment, 2 content format
    if (fmtk == 1) ew = choose(0, 3, "ewidth");
#endif
#if EK_ == 2
    if (fmtk == 2) prec = choose(0, 2, "precision");
#endif
    (void)prec; (void)bn; (void)buf; (void)ew;
    for (int i = 0; i < n; ++i) {
        T b;
#if EK_ == 0
        C c = anyc("c"); h.p[i] = c; put(b, c);
  #if FK_ >= 4
        put(b, c);
  #else
        if (fmtk == 2) { put(b, c); put(b, c); }      // times 3
  #endif
#elif EK_ == 1
        int d1 = (int)sym_digit(1, 9, "d"), d0 = (int)sym_digit(0, 9, "d"); bool two = choose(0, 1, "two"), neg = choose(0, 1, "neg"); int v = two ? d1 * 10 + d0 : d0; if (neg && !two) { v = 7; d0 = 7; } h.p[i] = neg ? -v : v;
        if (neg) b.ch('-'); else if (fmtk == 2) b.ch('+');
        if (fmtk == 2) { b.ch('0', two ? 1 : 2); }
  #if FK_ >= 4
        b.ch('0', (two ? 2 : 3) - (neg ? 1 : 0));
  #endif
        if (two) put(b, (C)('0' + d1));
        put(b, (C)('0' + d0));
#else
        int l = choose(0, CFG("len", 2), "length"); C* s = buf + bn; for (int k = 0; k < l; ++k) { s[k] = anyc("s"); } bn += l;
        new (h.p + i) V(s, (std::size_t)l); int m = fmtk == 2 && prec < l ? prec : l;
  #if FK_ >= 4
        if (l == 0) b.ch('.');
  #endif
        for (int k = 0; k < m; ++k) put(b, s[k]);
  #if FK_ >= 4
        put(b, (C)'!');
  #endif
#endif
        if (fmtk == 1) { Align a{true, U'*', ew, 2}; aligned(el[i], a, b); } else el[i] = b;
    }
    C sep[4]; int sl = 0;
#if FK_ % 2 == 1
    sl = choose(0, CFG("sep", 2), "seplen"); for (int k = 0; k < sl; ++k) { sep[k] = anyc("sep"); sym_assume(sep[k] != 0); }
#endif
    sep[sl] = 0; const uni::Heap<C> hs(sl + 1); for (int k = 0; k <= sl; ++k) hs.p[k] = sep[k]; const C* sp = hs.p; (void)sp;
    T r; for (int i = 0; i < n; ++i) { if (i) for (int k = 0; k < sl; ++k) put(r, sep[k]); cat(r, el[i]); }
    if (n == 0) sym_cover("empty range"); if (n > 1) sym_cover("several elements");
    // the range object
#if EN_ == 0
  #define A_ It{h.p}, It{h.p + n}
#elif EN_ == 1
    const Box box{h.p, h.p + n};
  #define A_ box
#elif EN_ == 2
    V arr[3] = {h.p[0], h.p[1], h.p[2]};
  #define A_ arr
#else
    std::initializer_list<V> il = {h.p[0], h.p[1], h.p[2]};
  #define A_ il
#endif
#if FK_ == 0
    auto R = strf::range(A_);
#elif FK_ == 1
    auto R = strf::separated_range(A_, sp);
#elif FK_ == 4
    auto R = strf::range(A_, Op{});
#elif FK_ == 5
    auto R = strf::separated_range(A_, sp, Op{});
#elif FK_ == 2
    auto R0 = strf::fmt_range(A_);
#else
    auto R0 = strf::fmt_separated_range(A_, sp);
#endif
    auto fp = strf::pack(strf::fast_width_t{});
    auto ctx = [&](const auto& R) {
        C a = anyc("a"), b = anyc("b");
#if CX_ == 0
        (void)a; (void)b; check(r, what, maxroom, true, fp, R);
#elif CX_ == 1
        T e; put(e, a); cat(e, r); put(e, b); cat(e, r); check(e, what, maxroom, true, fp, a, R, b, R);
#elif CX_ == 2
        T e; put(e, a); cat(e, r); put(e, b); cat(e, r); put(e, b); check(e, what, maxroom, true, fp, a, strf::join(R, b, strf::join(R)), strf::join(), b);
#elif CX_ == 3
        T e; put(e, a); cat(e, r); put(e, b); put(e, b);
        Align al{true, choose(0, 1, "fillkind") ? (sizeof(C) == 2 ? U'\U0001F600' : U'\u20AC') : (char32_t)sym_range(0x21, 0x7E, "fill"), choose(-2, CFG("whi", 4), "width") + e.w, choose(0, 2, "alignment")}; strf::width_t w = (strf::width_t)al.width;
        T x; aligned(x, al, e); sym_cover(al.width > e.w ? "filled" : "not filled");
        if (al.al == 0) check(x, what, maxroom, true, fp, strf::join_left(w, al.fill)(a, R, strf::join(b, b)));
        else if (al.al == 1) check(x, what, maxroom, true, fp, strf::join_align(w, strf::text_alignment::right, al.fill)(a, R, strf::join(b, b)));
        else check(x, what, maxroom, true, fp, (strf::join(a, R, strf::join(b, b))).set_alignment_format(afmt(al)));
#elif CX_ == 4
        static const C t[] = {'{', '1', '}', '<', '{', '}', '>', '{', '1', '}', 0};
        T e; put(e, a); put(e, (C)'<'); cat(e, r); put(e, (C)'>'); put(e, a); check(e, what, maxroom, true, fp, strf::tr(t, R, a));
#elif CX_ == 5
        T e; put(e, a); cat(e, r); T x; Align al{true, U'*', choose(0, 2, "width") + e.w, choose(0, 2, "alignment")}; aligned(x, al, e);
        auto j1 = strf::join_align((strf::width_t)al.width, (strf::text_alignment)(al.al == 0 ? strf::text_alignment::left : al.al == 1 ? strf::text_alignment::right : strf::text_alignment::center), U'*')(a, R);
        put(x, b); T y; Align al2{true, U'-', choose(-1, 2, "width2") + x.w, choose(0, 1, "alignment2") * 2}; aligned(y, al2, x); cat(y, r);
        if (al2.al == 0) check(y, what, maxroom, true, fp, strf::join_left((strf::width_t)al2.width, U'-')(j1, b), R); else check(y, what, maxroom, true, fp, strf::join_center((strf::width_t)al2.width, (C)'-')(j1, b), R);
#elif CX_ == 6
        struct Same { decltype(R) x; auto operator()(int) const { return strf::join(x, (C)':'); } }; int two[2] = {0, 0}; static const C c2[] = {'/', 0}; (void)a; (void)b;
        T e; cat(e, r); put(e, (C)':'); put(e, (C)'/'); cat(e, r); put(e, (C)':'); check(e, what, maxroom, true, fp, strf::separated_range(two, c2, Same{R}));
#endif
    };
#if FK_ == 2 || FK_ == 3
    if (fmtk == 0) ctx(R0);
    else if (fmtk == 1) ctx(std::move(R0).set_alignment_format(strf::alignment_format{U'*', (strf::width_t)ew, strf::text_alignment::center}));
    else {
  #if EK_ == 0
        ctx(std::move(R0).multi(3));
  #elif EK_ == 1
        ctx((+std::move(R0)).p(3));
  #else
        ctx(std::move(R0).p((strf::width_t)prec));
  #endif
    }
#else
    ctx(R);
#endif
}
