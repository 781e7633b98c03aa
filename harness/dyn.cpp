// C09: type-erased charsets and transcoders, and runtime lookups. compile flags: C1_, C2_ code units
// cfg: mode, fl, n
#include "trans.h"
#include "sink.h"
#include "sbcs_tables.h"
#ifndef C1_
#define C1_ char
#endif
#ifndef C2_
#define C2_ char32_t
#endif
using namespace tr;
static int choose(int lo, int hi, const char* n) { return (int)sym_concretize(sym_range(lo, hi, n)); }
static u32 tdec(int cs, unsigned b) { u32 c = sbcs_table[cs][b & 255]; return c == 0 && b != 0 ? 0xFFFFFFFF : c; }
static unsigned tenc(int cs, u32 cp) { unsigned r = 0x100; for (unsigned b = 0; b < 256; ++b) { u32 c = tdec(cs, b); r = (c <= 0x10FFFF && c == cp) ? b : r; } return r; }
static const strf::charset_id IDS[] = {
#define SBCS(I, N) strf::csid_##N,
#include "sbcs_list.h"
#undef SBCS
};
// charset k of code unit C: 0 the UTF, 1+i the single-byte charset i
template <class C, class F> static void with(int k, F f) {
    if (k == 0) { f(strf::utf_t<C>()); return; }
    if constexpr (sizeof(C) == 1) switch (k - 1) {
#define SBCS(I, N) case I: f(strf::static_charset<C, strf::csid_##N>()); break;
#include "sbcs_list.h"
#undef SBCS
    }
}
template <class C> static strf::dynamic_charset<C> dynamic(int k) { alignas(8) static unsigned char st[sizeof(strf::dynamic_charset<C>)]; auto* p = reinterpret_cast<strf::dynamic_charset<C>*>(st); with<C>(k, [&](auto s) { new (st) strf::dynamic_charset<C>(s); }); return *p; }
// adapter: a type-erased transcoder seen as a static one
template <class S, class D> struct Dyn {
    static strf::dynamic_transcoder<S, D>& t() { static strf::dynamic_transcoder<S, D> x; return x; }
    static auto transcode(const S* s, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, strf::transcode_flags f) { return t().transcode(s, e, d, de, n, f); }
    static auto unsafe_transcode(const S* s, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, strf::transcode_flags f) { return t().unsafe_transcode(s, e, d, de, n, f); }
    static auto transcode_size(const S* s, const S* e, std::ptrdiff_t l, strf::transcode_flags f) { return t().transcode_size(s, e, l, f); }
    static auto unsafe_transcode_size(const S* s, const S* e, std::ptrdiff_t l, strf::transcode_flags f) { return t().unsafe_transcode_size(s, e, l, f); }
    static auto transcode_func() { return t().transcode_func(); } static auto unsafe_transcode_func() { return t().unsafe_transcode_func(); }
    static auto transcode_size_func() { return t().transcode_size_func(); } static auto unsafe_transcode_size_func() { return t().unsafe_transcode_size_func(); }
};
template <class S, class D> static strf::dynamic_transcoder<S, D> erase(strf::dynamic_transcoder<S, D> t) { return t; }
template <class S, class D, strf::charset_id A, strf::charset_id B> static strf::dynamic_transcoder<S, D> erase(strf::static_transcoder<S, D, A, B> t) { return strf::dynamic_transcoder<S, D>(t); }
template <class T> static bool isnull(T t) { bool a = t.transcode_func() == nullptr; sym_check((t.transcode_size_func() == nullptr) == a && (t.unsafe_transcode_func() == nullptr) == a && (t.unsafe_transcode_size_func() == nullptr) == a, "the four functions are null together"); return a; }
static List c;
template <class S, class D> static void behaves(strf::dynamic_transcoder<S, D> t, int ks, int kd, const char* sn, const char* dn) {
    static u32 us[8]; int fl = CFG("fl", 0), n = CFG("n", 2); c.n = 0; c.len = n; Heap<S> src(n); int bits = sizeof(S) * 8, tot = 0; bool valid = true;
    for (int i = 0; i < n; ++i) { us[i] = (u32)sym_value((unsigned)bits, "u"); src[i] = (S)us[i]; }
    for (int p = 0; p < n;) {
        It& x = c.it[c.n++]; x.begin = p; u32 cp; bool ok;
        if (ks) { cp = tdec(ks - 1, us[p]); ok = cp != 0xFFFFFFFF; x.len = 1; } else { Step st = dec(bits, us + p, n - p, fl & 1); cp = st.cp; ok = st.ok; x.len = st.len; }
        x.cp = cp; x.k = ok ? OK : INVALID; if (!ok) valid = false;
        if (kd) { x.outlen = 1; if (!ok || cp == 0xFFFD) x.out[0] = '?'; else if (ks == kd) x.out[0] = us[p]; else { if (!(fl & 1) && cp >= 0xE000 && cp <= 0xFFFF) { sym_assume(false); return; } unsigned b = tenc(kd - 1, cp); if (b < 0x100) x.out[0] = b; else { x.out[0] = '?'; x.k = UNSUPPORTED; sym_cover("unsupported"); } } }
        else x.outlen = enc(sizeof(D) * 8, ok ? cp : 0xFFFD, x.out);
        tot += x.outlen; p += x.len;
    }
    Dyn<S, D>::t() = t; int room = choose(tot > 1 ? tot - 1 : 0, tot + 1, "room");
    check<Dyn<S, D>, S, D>(c, src, fl, room, true, sn, dn); if (valid) { check<Dyn<S, D>, S, D>(c, src, fl, room, false, sn, dn); sym_cover("valid"); } else sym_cover("invalid");
}
template <class S, class D> static void lookup() {
    int ns = sizeof(S) == 1 ? 26 : 1, nd = sizeof(D) == 1 ? 26 : 1, only = CFG("found", 0);
    int ks = choose(0, ns - 1, "source"), kd = choose(0, nd - 1, "destination");
    bool u32s = sizeof(S) == 4, u32d = sizeof(D) == 4, expect = (ks == 0 && kd == 0) || (ks && kd && ks == kd) || (ks && u32d) || (u32s && kd);
    if (only != expect) return;
    auto a = dynamic<S>(ks); auto b = dynamic<D>(kd); const char *sn = a.name(), *dn = b.name();
    auto t = erase(strf::find_transcoder(a, b));
    bool null = isnull(t);
    sym_check(null == !expect, "a transcoder is found if and only if there is one"); if (null) sym_cover("not available"); else sym_cover("found");
    int how = choose(0, 4, "lookup");
    if (how == 1) { if constexpr (!std::is_same<D, char32_t>::value) t = a.find_transcoder_to(strf::tag<D>(), b.id()); else t = erase(a.to_u32()); null = isnull(t); if (!(kd && u32s)) sym_check(null == !expect, "find_transcoder_to"); }
    if (how == 2) { if constexpr (!std::is_same<S, char32_t>::value) { t = b.find_transcoder_from(strf::tag<S>(), a.id()); null = isnull(t); if (!(ks && u32d)) sym_check(null == !expect, "find_transcoder_from"); } else t = erase(b.from_u32()); null = isnull(t); }
    if (how == 3) { with<S>(ks, [&](auto s) { t = erase(strf::find_transcoder(s, b)); }); null = isnull(t); sym_check(null == !expect, "lookup from a static charset"); }
    if (how == 4) { with<D>(kd, [&](auto d) { t = erase(strf::find_transcoder(a, d)); }); null = isnull(t); sym_check(null == !expect, "lookup to a static charset"); }
    sym_trace(null);
    if (!null && expect) behaves<S, D>(t, ks, kd, sn, dn);
}
template <class C> static void same() {      // the operations of a dynamic charset against its static one
    int k = choose(0, sizeof(C) == 1 ? 25 : 0, "charset"), part = choose(CFG("plo", 0), CFG("phi", 5), "part"); int fl = CFG("fl", 0);
    with<C>(k, [&](auto s) {
        strf::dynamic_charset<C> d(s), d2 = s.to_dynamic(), d3 = d.to_dynamic(); strf::dynamic_charset<C> other = dynamic<C>(k ? k == 25 ? 1 : k + 1 : 0);
        sym_check(d == d2 && !(d != d2) && d == d3, "equality"); if (sizeof(C) == 1 && k) sym_check(d != other && !(d == other), "inequality");
        if (part == 5) { auto x = d, y = other; x.swap(y); sym_check(y == d && x == other && streq(y.name(), s.name()), "swap"); return; }
        sym_check(streq(d.name(), s.name()) && d.id() == s.id() && d.replacement_char() == s.replacement_char() && d.replacement_char_size() == s.replacement_char_size(), "name, id, replacement");
        u32 cp = (u32)sym_value(32, "cp"); 
        if (part == 0) {
            sym_check((int)d.validate((char32_t)cp) == (int)s.validate((char32_t)cp) && (int)d.validate_func()((char32_t)cp) == (int)s.validate((char32_t)cp), "validate");
            int n = (int)s.encoded_char_size((char32_t)cp); sym_check((int)d.encoded_char_size((char32_t)cp) == n, "encoded_char_size");
            C o1[8], o2[8], o3[8]; C* e1 = s.encode_char(o1, (char32_t)cp); C* e2 = d.encode_char(o2, (char32_t)cp); C* e3 = d.encode_char_func()(o3, (char32_t)cp);
            sym_check(e1 - o1 == e2 - o2 && e3 - o3 == e1 - o1, "encode_char size"); for (int i = 0; i < e1 - o1; ++i) sym_check(o1[i] == o2[i] && o1[i] == o3[i], "encode_char"); sym_trace(e1 - o1);
            C u = (C)cp; sym_check(d.decode_unit(u) == s.decode_unit(u), "decode_unit");
        } else if (part == 1) {
            int cnt = choose(0, 5, "count"), room = choose(0, 4, "room"); Sink<C, 3> a(room), b(room), e(room); s.encode_fill(a, cnt, (char32_t)cp); d.encode_fill(b, cnt, (char32_t)cp); d.encode_fill_func()(e, cnt, (char32_t)cp); a.finish(); b.finish(); e.finish();
            sym_check(a.n == b.n && a.n == e.n, "encode_fill size"); for (int i = 0; i < a.n; ++i) sym_check(a.out[i] == b.out[i] && a.out[i] == e.out[i], "encode_fill"); sym_trace(a.n);
        } else if (part == 2) {
            int room = choose(0, 4, "room"); Sink<C, 3> a(room), b(room), e(room); s.write_replacement_char(a); d.write_replacement_char(b); d.write_replacement_char_func()(e); a.finish(); b.finish(); e.finish();
            sym_check(a.n == b.n && a.n == e.n, "write_replacement_char size"); for (int i = 0; i < a.n; ++i) sym_check(a.out[i] == b.out[i] && a.out[i] == e.out[i], "write_replacement_char");
        } else if (part == 3) {
            int n = CFG("n", 3); Heap<C> src(n); for (int i = 0; i < n; ++i) src[i] = (C)sym_value(sizeof(C) * 8, "u"); int max = choose(0, n + 1, "max");
            auto a = s.count_codepoints(src.begin(), src.end(), max), b = d.count_codepoints(src.begin(), src.end(), max); sym_check(a.count == b.count && a.ptr == b.ptr, "count_codepoints"); sym_trace(a.count);
            auto f = s.count_codepoints_fast(src.begin(), src.end(), max), g = d.count_codepoints_fast(src.begin(), src.end(), max); sym_check(f.count == g.count && f.ptr == g.ptr, "count_codepoints_fast");
        } else {
            int w = choose(0, 2, "transcoder"); if (w == 2 && sizeof(C) == 4) return;
            if (w == 0) behaves<C, C>(d.sanitizer(), k, k, s.name(), s.name());
            else if (w == 1) behaves<C, char32_t>(d.to_u32(), k, 0, s.name(), "UTF-32");
            else behaves<char32_t, C>(d.from_u32(), 0, k, "UTF-32", s.name());
        }
        sym_cover("charset");
    });
}
// a user's charset: an id the library does not know, with and without find functions of its own
static int asked; static strf::charset_id asked_id;
template <class S, class D> static strf::dynamic_transcoder<S, D> finder(strf::charset_id id) { ++asked; asked_id = id; if (id == strf::csid_utf8) return strf::dynamic_transcoder<S, D>(strf::utf_to_utf<S, D>()); return {}; }
static void custom() {
    typedef strf::utf_t<C2_> U; asked = 0; int mask = choose(0, 3, "functions"); const strf::charset_id mine = (strf::charset_id)0x7ABC0001;
    strf::dynamic_charset_data<C2_> data{"mine", mine, 0xFFFD, U::replacement_char_size(), U::validate, U::encoded_char_size, U::encode_char, U::encode_fill, U::count_codepoints_fast, U::count_codepoints, U::write_replacement_char, U::decode_unit, strf::dynamic_transcoder<C2_, C2_>(U::sanitizer()), strf::dynamic_transcoder<char32_t, C2_>(U::from_u32()), strf::dynamic_transcoder<C2_, char32_t>(U::to_u32())};
    if (mask & 1) data.find_transcoder_from_char = finder<char, C2_>; if (mask & 2) data.find_transcoder_to_char = finder<C2_, char>;
    strf::dynamic_charset<C2_> m(data); sym_check(m.id() == mine && streq(m.name(), "mine") && m == m, "custom charset");
    int k = choose(0, 2, "other"); auto o = dynamic<char>(k);
    auto t = erase(strf::find_transcoder(o, m)); bool want = (mask & 1) && k == 0; sym_check(isnull(t) == !want, "lookup into a custom charset"); if (want) behaves<char, C2_>(t, 0, 0, "UTF-8", U::name());
    auto r = erase(strf::find_transcoder(m, o)); want = (mask & 2) && k == 0; sym_check(isnull(r) == !want, "lookup from a custom charset"); if (want) { behaves<C2_, char>(r, 0, 0, U::name(), "UTF-8"); sym_cover("custom"); } else sym_cover("custom refused");
    t = erase(strf::find_transcoder(strf::utf_t<char>(), m)); sym_check(isnull(t) == !(mask & 1), "lookup from a static charset into a custom one");
    if (!std::is_same<C2_, wchar_t>::value) { auto w = m.find_transcoder_to(strf::tag<wchar_t>(), strf::csid_utf32); sym_check(isnull(w), "no function: null"); auto w2 = m.find_transcoder_from(strf::tag<char16_t>(), strf::csid_utf16); sym_check(isnull(w2), "no function: null"); }
}
extern "C" void sym_main() {
#if MODE_ == 0
    lookup<C1_, C2_>();
#elif MODE_ == 1
    same<C1_>();
#else
    custom();
#endif
}
