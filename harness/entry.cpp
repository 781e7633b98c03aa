// Whole print expressions through every public entry point, in every form of the printing syntax.
// D_ 0 to(C array), 1 to_range, 2 to_(basic_)string, 3 append, 4 assign, 5 to(FILE*), 6 wto(FILE*), 7 to(streambuf), 8 to(destination)
// cfg: form (printing form, see say()), res (reservation, strings), e (overload), lo/hi sizes, throwing
#include "device.h"
#include <strf.hpp>
using namespace uni;
#ifndef C_
#define C_ char
#endif
#ifndef D_
#define D_ 0
#endif
typedef C_ C;
#ifdef OWNALLOC
typedef std::basic_string<C, std::char_traits<C>, Alloc<C>> Str;
#else
typedef std::basic_string<C> Str;
#endif
static int choose(int n, const char* name) { return (int)sym_concretize(sym_range(0, n - 1, name)); }
// the output: pieces that are either written as a block (cut anywhere) or composed in place (cut before)
static C full[64]; static int n, cut, cap;
static void piece(const C* p, int len, bool inplace) { if (cut < 0 && n + len > cap) cut = inplace ? n : cap; for (int i = 0; i < len; ++i) full[n++] = p[i]; }
static void unit(unsigned c) { C k = (C)c; piece(&k, 1, false); }
static C text[2]; static int len; static unsigned hexv; static C cc; static bool thrower;
struct Bang { };
namespace strf { template <> struct printable_def<Bang> { using representative = Bang; using forwarded_type = Bang; using is_overridable = std::false_type;
    template <class CharT> struct Pr { void operator()(strf::destination<CharT>&) const { if (thrower) throw 7; } };
    template <class CharT, class Pre, class FP> static auto make_printer(strf::tag<CharT>, Pre*, const FP&, Bang) { return Pr<CharT>{}; } }; }
#ifdef SYMX
#define KEEP __attribute__((noinline))
#else
#define KEEP
#endif
static const C T1[] = {'{', '}', 'q', '{', '}', '{', '}', '{', '}', 0}, T2[] = {'w', 'z', 0};
// expected output of a form
static void expect(int form) {
    n = 0; cut = -1; bool up = form == 4 || form == 5 || form == 6 || form == 7 || form == 8 || form == 9 || form == 13 || form == 14; bool tr = form == 2 || form == 3 || form == 8;
    if (form == 11) return; if (form == 12) { unit('w'); unit('z'); unit('\n'); return; }
    if (form == 10) { unit('\n'); return; }
    piece(text, len, false); if (tr) unit('q');
    C d[2]; for (int i = 0; i < 2; ++i) { unsigned v = hexv >> (i ? 0 : 4) & 15; d[i] = (C)(v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10); } piece(d, 2, true); piece(&cc, 1, false);
    if (form == 1 || form == 3 || form == 9) unit('\n');
}
// one print expression; k receives the result
template <class S> KEEP static auto say(const S& s, int form) {
    const strf::lettercase up = strf::lettercase::upper, lo = strf::lettercase::lower; strf::detail::simple_string_view<C> x(text, len); auto h = strf::hex(hexv); Bang b;
    switch (form) {
    case 0: return s(x, h, b, cc);
    case 1: return s.line(x, h, b, cc);
    case 2: return s.tr(T1, x, h, b, cc);
    case 3: return s.trline(T1, x, h, b, cc);
    case 4: { const auto t = s.with(up); return t(x, h, b, cc); }
    case 5: return S(s).with(up)(x, h, b, cc);
    case 6: { auto t = s.with(lo); return std::move(t).with(up)(x, h, b, cc); }
    case 7: return s(up, x, h, b, cc);
    case 8: return s.tr(up, T1, x, h, b, cc);
    case 9: return s.line(up, x, h, b, cc);
    case 10: return s.line();
    case 11: return s();
    case 12: return s.trline(T2);
    case 13: return s.with(lo)(up, x, h, b, cc);
    default: return s.with()(lo, strf::pack(up), x, h, b, cc);
    }
}

static const int NFORMS = 15;
template <class T> static void prefix(const T* got, int k, const char* what) { sym_check(k <= n && k >= 0, what); for (int i = 0; i < k && i < n; ++i) sym_check(val(got[i]) == val(full[i]), what); }
#if D_ == 0 || D_ == 1
#if D_ == 0
#define TO strf::to
#else
#define TO strf::to_range
#endif
template <class R> static void verify(const R& r, C* a) {
    int want = cut < 0 ? n : cut; sym_check(r.ptr - a == want, "end pointer"); sym_check(r.truncated == (want < n), "truncated flag");
    for (int i = 0; i < want; ++i) sym_check(a[i] == full[i], "content is the longest prefix that fits"); if (D_ == 0) sym_check(*r.ptr == C(), "terminator");
    sym_cover(r.truncated ? "truncated" : "fits"); sym_trace(want); sym_trace(r.truncated);
}
template <int N> static void array(int form) { struct Box { C a[N]; }; Heap<Box> h(1); cap = D_ == 0 ? N - 1 : N; expect(form); auto s = TO(h.p->a); verify(say(s, form), h.p->a); }
static void run(int form) {
    int e = CFG("e", 0);
    if (e == 0) { switch (choose(6, "size")) { case 0: array<1>(form); break; case 1: array<2>(form); break; case 2: array<4>(form); break; case 3: array<5>(form); break; case 4: array<6>(form); break; default: array<9>(form); } }
    else { int S = 1 + choose(8, "size"); Heap<C> a(S); cap = D_ == 0 ? S - 1 : S; expect(form); if (e == 1) { auto s = TO(a.p, a.p + S); verify(say(s, form), a.p); } else { auto s = TO(a.p, (std::size_t)S); verify(say(s, form), a.p); } }
}
#elif D_ >= 2 && D_ <= 4
// every way to choose the reservation; all of them must print the same
template <class S, class K> static void reserving(const S& s, int r, K k) {
    static const int SZ[] = {0, 1, 5, 100};
    switch (r) {
    case 0: k(s); break;
    case 1: { const S& t = s.no_reserve(); k(t); break; }
    case 2: { auto t = s.reserve_calc(); k(t); break; }
    case 3: case 4: case 5: case 6: { auto t = s.reserve(SZ[r - 3]); k(t); break; }
    case 7: { auto t = S(s).reserve_calc().no_reserve(); k(t); break; }
    case 8: { auto t = S(s).reserve(3).reserve_calc(); k(t); break; }
    case 9: { auto t = S(s).reserve_calc().reserve(2); k(t); break; }
    case 10: { auto t = s.reserve_calc(); t.reserve_calc(); const auto& u = t; k(u.reserve_calc()); break; }
    case 11: { auto t = s.reserve(90).with(strf::lettercase::mixed, strf::lettercase::lower); k(t); break; }
    case 12: { auto t = s.reserve(9L).no_reserve(); k(t); break; }
    case 13: { auto t = s.reserve(0u); t.reserve_given_space(80); k(t); break; }
    case 14: { const auto t = s.reserve(1); auto u = t.reserve_given_space(7); k(u); break; }
    }
}
static C ini[24];
static void verify(const Str& s, int init) {
    sym_check((int)s.size() >= init, "existing content kept"); for (int i = 0; i < init; ++i) sym_check(s[i] == ini[i], "existing content kept"); sym_check(s.c_str()[s.size()] == C(), "string object is valid");
    prefix(s.data() + init, (int)s.size() - init, "text is a prefix of the output");
}
static void run(int form) {
    int r = choose(15, "reservation"), th = CFG("throwing", 0); bool caught = false; thrower = th == 2; alloc_no = 0; alloc_threw = false; live_bytes = 0; alloc_fail = -1; cap = 1 << 20; expect(form);
    { Str s; int init = D_ == 2 ? 0 : CFG("init", 3); for (int i = 0; i < init; ++i) { ini[i] = (C)(i + 65); s.push_back(ini[i]); } alloc_no = 0; alloc_fail = th == 1 ? choose(4, "alloc_fail") : -1;
      try {
#if D_ == 2 && defined(OWNALLOC)
        reserving(strf::to_basic_string<C, std::char_traits<C>, Alloc<C>>, r, [&](const auto& p) { s = say(p, form); });
#elif D_ == 2
        reserving(strf::TOSTR_, r, [&](const auto& p) { s = say(p, form); });
#elif D_ == 3
        reserving(strf::append(s), r, [&](const auto& p) { say(p, form); });
#else
        reserving(strf::assign(s), r, [&](const auto& p) { say(p, form); }); init = 0;
#endif
      } catch (std::bad_alloc&) { caught = true; if (D_ == 4) init = 0; } catch (int) { caught = true; sym_check(thrower, "unexpected exception"); if (D_ == 4) init = 0; }
      bool exp = alloc_threw || (thrower && form != 10 && form != 11 && form != 12); sym_check(caught == exp, "an exception propagates");
      verify(s, init); if (!exp) { sym_check((int)s.size() - init == n, "string has the whole output"); sym_cover("string complete"); } else sym_cover("exception");
      sym_trace(s.size()); for (unsigned i = 0; i < s.size(); ++i) sym_trace(val(s[i])); }
    sym_check(live_bytes == 0, "nothing is leaked");
}
#else
static void run(int form) {
    static unsigned char file; cap = 1 << 20; expect(form);
#if D_ == 8
    Sink<C, 6, 64> s(choose(4, "room"), 0); say(strf::to(static_cast<strf::destination<C>&>(s)), form); s.finish(); sym_check(s.good(), "destination good"); sym_check(s.n == n, "everything arrived"); prefix(s.out, s.n, "content of the destination"); sym_cover("destination"); sym_trace(s.n);
#else
    static Device dv; dv = Device(); dev = &dv; dv.fail_at = choose(5, "fail_at") - 1; dv.part = choose(3, "part");
#if D_ == 5
    auto r = say(strf::to<C>((FILE*)&file), form);
#elif D_ == 6
    auto r = say(strf::wto((FILE*)&file), form);
#else
    std::basic_streambuf<char, Tr> sb; auto r = CFG("e", 0) ? say(strf::to(&sb), form) : say(strf::to(sb), form);
#endif
    prefix(dv.w, dv.n, "device content is a prefix of the output"); sym_check(dv.after == 0, "nothing is sent after a failure"); sym_check((long)r.count == dv.n, "reported count"); sym_check(r.success == (dv.n == n && !dv.failed), "reported success");
    sym_cover(r.success ? "device success" : "device failure"); sym_trace(dv.n); sym_trace(r.success);
#endif
}
#endif
extern "C" void sym_main() {
    thrower = false; len = choose(3, "length"); sym_bytes(text, sizeof text, "text"); sym_bytes(&cc, sizeof cc, "char"); hexv = 0x80 + (unsigned)sym_range(0, 127, "number");
    run(CFG("form", -1) >= 0 ? CFG("form", -1) : choose(NFORMS, "form"));
}
