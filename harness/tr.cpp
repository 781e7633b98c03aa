// C18: template strings ("tr-string"), against the table of the documentation.
// C_ character type, NA_ number of arguments, CS_ charset facet (optional), DYN_ type-erased charset, SYN_ syntax:
// 0 strf::tr(...) as a printable, 1 .tr / .trline of the printing syntax, 2 nested strf::tr, 3 strf::to_string
#include "printx.h"
using namespace px;
#ifndef C_
#define C_ char
#endif
#ifndef NA_
#define NA_ 2
#endif
#ifndef SYN_
#define SYN_ 0
#endif
#ifndef E_
#define E_ (sizeof(C_) == 1 ? 8 : sizeof(C_) == 2 ? 16 : 32)
#endif
namespace {
using C = C_;
struct Ev { const void* str; std::int64_t len, pos; int cs; };
struct Rec { int n = 0; Ev e[16]; };
struct Notif {
    using category = strf::tr_error_notifier_c; Rec* r;
    template <class CS> void handle(const typename CS::code_unit* s, std::ptrdiff_t len, CS cs, std::ptrdiff_t pos) noexcept { if (r->n < 16) r->e[r->n] = Ev{s, len, pos, (int)cs.id()}; ++r->n; }
};
inline bool yes(bool c) { return sym_concretize(c) != 0; }
typedef Text<C, 300> T;
struct Miss { int pos[16]; int n = 0; };
// the documented meaning of a template
inline void put(T& o, C c) { sym_check(o.n < 300, "harness capacity"); o.u[o.n++] = c; ++o.w; }
inline void cat(T& o, const T& a) { for (int i = 0; i < a.n; ++i) o.u[o.n++] = a.u[i]; o.w += a.w; }
inline void repl(T& o) { if (E_ >= 1000) put(o, (C)'?'); else { u32 r[4]; int k = uni::enc(E_, 0xFFFD, r); for (int i = 0; i < k; ++i) o.u[o.n++] = (C)r[i]; ++o.w; } }
inline void expand(T& o, Miss& m, const C* s, int n, const T* args, int na) {
    int next = 0, i = 0;
    while (i < n) {
        if (!yes(s[i] == (C)'{')) { put(o, s[i]); ++i; continue; }
        int at = i; ++i;
        int idx = -1; bool comment = false;
        if (i < n && yes(s[i] == (C)'{')) { sym_cover("escape"); put(o, (C)'{'); ++i; continue; }
        if (i < n && yes(s[i] == (C)'-')) { sym_cover("comment"); comment = true; }
        else if (i < n && yes(s[i] >= (C)'0' && s[i] <= (C)'9')) {
            sym_cover("positional"); long v = 0;
            while (i < n && yes(s[i] >= (C)'0' && s[i] <= (C)'9')) { int d = 0; for (; d < 9; ++d) if (yes(s[i] == (C)('0' + d))) break; v = v * 10 + d; if (v > 1000) v = 1000; ++i; }
            idx = (int)v;
        } else { idx = next; if (next < na) ++next; }
        if (!comment) { if (idx < na) cat(o, args[idx]); else { sym_cover("missing argument"); repl(o); if (m.n < 16) m.pos[m.n] = at; ++m.n; } }
        while (i < n && !yes(s[i] == (C)'}')) ++i;
        if (i == n) sym_cover("end inside braces");
        ++i;
    }
}
// template text: digits of pat, most significant first
// 9 any unit, 8 one of { } - 0 1 letter, 7 any digit, 1 '{', 2 '}', 3 '-', 4 'x', 5 '0', 6 '1'
inline int tmpl(C* s, std::uint64_t pat) {
    int d[20], k = 0, n = 0; while (pat) { d[k++] = (int)(pat % 10); pat /= 10; }
    while (k--) {
        if (d[k] == 9) { C c; sym_bytes(&c, sizeof c, "u"); s[n++] = c; }
        else if (d[k] == 8) { static const char a[] = "{}-01x"; s[n++] = (C)a[choose(0, 5, "k")]; }
        else if (d[k] == 7) s[n++] = (C)('0' + choose(0, 9, "digit"));
        else s[n++] = (C)" {}-x01"[d[k]];
    }
    return n;
}
#ifdef CS_
#ifdef DYN_
inline auto cspack() { return CS_<C>{}.to_dynamic(); }
#else
inline auto cspack() { return CS_<C>{}; }
#endif
#endif
// destination of the printing syntax: finish() gives the number of recycles
template <int> struct Buf final : strf::output_buffer<C, 6> {
    C* b; T* out; int recycles = 0;
    static C* mk(long n) { return (C*)std::malloc(n > 0 ? n * sizeof(C) : 1); }
    Buf(long n, T* o) : strf::output_buffer<C, 6>((C*)nullptr, (C*)nullptr), b(mk(n)), out(o) { this->set_buffer_ptr(b); this->set_buffer_end(b + n); }
    Buf(const Buf&) = delete; ~Buf() { std::free(b); }
    void keep() { int k = (int)(this->buffer_ptr() - b); for (int i = 0; i < k && out->n < 300; ++i) out->u[out->n++] = b[i]; }
    void recycle() override { keep(); ++recycles; std::free(b); b = mk(64); this->set_buffer_ptr(b); this->set_buffer_end(b + 64); }
    int finish() { keep(); return recycles; }
};
using Dst = Buf<0>; using Sized = Buf<1>;    // Sized: exactly the size asked for
struct Cr {
    using char_type = C; using destination_type = Dst; using sized_destination_type = Sized; using finish_type = int;
    T* out; int room; long* asked;
    Dst create() const { *asked = -1; return Dst{room, out}; }
    Sized create(std::size_t n) const { *asked = (long)n; return Sized{(long)n, out}; }
};
void same(const T& got, const T& e) { sym_check(got.n == e.n, "number of characters"); if (got.n == e.n) for (int i = 0; i < e.n; ++i) { sym_check(got.u[i] == e.u[i], "characters"); sym_trace(uni::val(got.u[i])); } }
}
extern "C" void sym_main() {
    C u[24]; int n = tmpl(u, sym_config("pat", 0));
    uni::Heap<C> h(n); for (int i = 0; i < n; ++i) h.p[i] = u[i];
    C* s = h.begin(); const strf::detail::simple_string_view<C> sv(s, (std::size_t)n);
    T args[12]; C c0; sym_bytes(&c0, sizeof c0, "c"); C s1[2]; sym_bytes(s1, sizeof s1, "s");
    if (NA_ > 0) put(args[0], c0);
    if (NA_ > 1) { put(args[1], s1[0]); put(args[1], s1[1]); }
    if (NA_ > 2) { }                                     // an empty string
    for (int i = 3; i < NA_; ++i) for (int k = 0; k <= i; ++k) put(args[i], (C)('a' + i));
    const auto a1 = strf::detail::simple_string_view<C>(s1, 2); const auto a2 = strf::detail::simple_string_view<C>(s1, (std::size_t)0);
    auto m = [&](int i) { return strf::multi((C)('a' + i), i + 1); }; (void)m; (void)a1; (void)a2;
    Rec r; Notif nf{&r};
#ifdef CS_
    auto fp = strf::pack(nf, cspack(), strf::fast_width_t{}); auto cs = cspack();
#else
    auto fp = strf::pack(nf, strf::fast_width_t{});
#endif
    // calls f(args...)
    auto with = [&](auto&& f) {
#if NA_ == 0
        f();
#elif NA_ == 1
        f(c0);
#elif NA_ == 2
        f(c0, a1);
#elif NA_ == 3
        f(c0, a1, a2);
#else
        f(c0, a1, a2, m(3), m(4), m(5), m(6), m(7), m(8), m(9), m(10), m(11));
#endif
    };
    T e; Miss ms; expand(e, ms, s, n, args, NA_);
    auto events = [&](const void* str, int len) {
        sym_check(r.n == ms.n, "missing arguments notified exactly once each");
        for (int i = 0; i < r.n && i < ms.n && i < 16; ++i) { sym_check(r.e[i].str == str && r.e[i].len == len, "notified template"); sym_check(r.e[i].pos == ms.pos[i], "notified position"); sym_trace(r.e[i].pos); }
    };
    int what = CFG("what", 8), maxroom = CFG("maxroom", 8);
#if SYN_ == 0
    with([&](const auto&... a) { check(e, what, maxroom, true, fp, strf::tr(sv, a...)); });
    if (what & (CHUNK | PLAIN)) events(s, n); else sym_check(r.n == 0, "measuring notifies nothing");
#elif SYN_ == 1
    int room = what & CHUNK ? choose(0, maxroom, "room") : 300;
    for (int line = 0; line < 2; ++line) {
        if (line) put(e, (C)'\n');
        for (int pol = 0; pol < (what & CHUNK ? 1 : 3); ++pol) {
            r.n = 0; T got; long asked = -2; int rc = 0;
            with([&](const auto&... a) {
                strf::printing_syntax<Cr> ps{Cr{&got, room, &asked}};
                auto q = ps.with(nf
#ifdef CS_
                    , cs
#endif
                    );
                if (pol == 0) rc = line ? q.trline(sv, a...) : q.tr(sv, a...);
                else if (pol == 1) rc = line ? q.reserve((std::size_t)(e.n - 1)).trline(sv, a...) : q.reserve((std::size_t)e.n).tr(sv, a...);
                else rc = line ? q.reserve_calc().trline(sv, a...) : q.reserve_calc().tr(sv, a...);
            });
            same(got, e); events(s, n);
            if (pol == 2) { sym_check(asked == e.n, "reserved exactly the size"); sym_check(rc == 0, "the reserved size was enough"); }
            if (pol == 0) sym_check(asked == -1, "nothing reserved");
        }
    }
#elif SYN_ == 2
    // the template is used with arguments, and the result is an argument of another template, twice
    { T a2_[2]; a2_[0] = e; put(a2_[1], c0); T e2; Miss m2; C o[] = {(C)'<', (C)'{', (C)'}', (C)'{', (C)'1', (C)'}', (C)'{', (C)'0', (C)'}', (C)'{', (C)'2', (C)'}', (C)'>'}; int on = 13;
      expand(e2, m2, o, on, a2_, 2);
      with([&](const auto&... a) { check(e2, what, maxroom, true, fp, strf::tr(strf::detail::simple_string_view<C>(o, (std::size_t)on), strf::tr(sv, a...), c0)); });
      if (what & (CHUNK | PLAIN)) {
        sym_check(r.n == 2 * ms.n + 1, "missing arguments of the inner template notified once per use");
        for (int i = 0; i < r.n && i < 16; ++i) { int k = i < ms.n ? i : i - ms.n; bool last = i == 2 * ms.n; sym_check(last ? r.e[i].str == (const void*)o && r.e[i].pos == 9 : r.e[i].str == (const void*)s && r.e[i].len == n && (k >= 16 || r.e[i].pos == ms.pos[k]), "nested notifications"); }
      } }
#elif SYN_ == 3
    for (int pol = 0; pol < 3; ++pol) { r.n = 0;
        auto q = strf::to_basic_string<C>.with(nf);
        with([&](const auto&... a) { std::basic_string<C> got = pol == 0 ? q.tr(sv, a...) : pol == 1 ? q.reserve(3).tr(sv, a...) : q.reserve_calc().tr(sv, a...);
            sym_check((int)got.size() == e.n, "length of the string"); if ((int)got.size() == e.n) for (int i = 0; i < e.n; ++i) sym_check(got[i] == e.u[i], "characters of the string"); });
        events(s, n); }
#endif
}
