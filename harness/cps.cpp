// One character at a time: UTF-8, UTF-16, UTF-32 charset functions. cfg: s (8,16,32), mode, count
#include "sink.h"
#include <strf/to_string.hpp>
using namespace uni;
#ifdef ALT
typedef char8_t C8; typedef wchar_t C32; typedef char16_t C16;
#else
typedef char C8; typedef char32_t C32; typedef char16_t C16;
#endif
template <class CS, class C> void one(CS cs, int E, bool dyn) {
    u32 cp = (u32)sym_value(32, "cp"); u32 w[4]; bool scalar = cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF); bool encodable = E == 32 || cp <= 0x10FFFF; int wn = enc(E, encodable ? cp : 0xFFFD, w);
    int v = (int)cs.validate((char32_t)cp); sym_check(v == (scalar ? wn : -1), "validate");
    sym_check((int)cs.validate_func()((char32_t)cp) == v, "validate_func");
    sym_check((int)cs.encoded_char_size((char32_t)cp) == wn, "encoded_char_size");
    Heap<C> o(wn); C* e = cs.encode_char(o.p, (char32_t)cp); sym_check(e == o.p + wn, "encode_char end"); for (int i = 0; i < wn; ++i) sym_check(val(o[i]) == w[i], "encode_char unit");
    Heap<C> o2(wn); e = cs.encode_char_func()(o2.p, (char32_t)cp); sym_check(e == o2.p + wn, "encode_char_func end"); for (int i = 0; i < wn; ++i) sym_check(val(o2[i]) == w[i], "encode_char_func unit");
    // the string transcoders agree
    char32_t src[1] = {(char32_t)cp}; u32 r[4]; int rn = scalar ? wn : enc(E, 0xFFFD, r); Heap<C> t(rn);
    auto tr = cs.from_u32().transcode_func()(src, src + 1, t.p, t.p + rn, nullptr, strf::transcode_flags::none);
    sym_check((int)tr.stop_reason == 0 && tr.dst_ptr == t.p + rn, "from_u32"); for (int i = 0; i < rn; ++i) sym_check(val(t[i]) == (scalar ? w[i] : r[i]), "from_u32 unit");
    if (scalar) { char32_t back[1] = {0}; auto b = cs.to_u32().transcode_func()(o.p, o.p + wn, back, back + 1, nullptr, strf::transcode_flags::stop_on_invalid_sequence); sym_check((int)b.stop_reason == 0 && b.dst_ptr == back + 1 && (u32)back[0] == cp, "to_u32 of encode_char"); sym_cover("scalar"); }
    else sym_cover("not a scalar");
    sym_trace(v); sym_trace(val(o[0]));
}
template <class CS, class C> void unit(CS cs, int E) {
    C c = (C)sym_value(E, "u"); u32 v = val(c); u32 d = (u32)cs.decode_unit(c);
    u32 want = E == 8 ? (v < 0x80 ? v : 0xFFFD) : E == 16 ? v : v <= 0x10FFFF ? v : 0xFFFD;
    sym_check(d == want, "decode_unit"); sym_trace(d);
    u32 w[4]; int wn = enc(E, 0xFFFD, w); sym_check((u32)cs.replacement_char() == 0xFFFD && (int)cs.replacement_char_size() == wn, "replacement_char");
    int room = (int)sym_concretize(sym_range(0, 5, "room"));
    for (int k = 0; k < 2; ++k) { Sink<C, 3> s(room); if (k) cs.write_replacement_char_func()(s); else cs.write_replacement_char(s); s.finish(); sym_check(s.n == wn, "write_replacement_char size"); for (int i = 0; i < wn; ++i) sym_check(val(s.out[i]) == w[i], "write_replacement_char"); }
}
template <class CS, class C> void fill(CS cs, int E) {
    int maxc = CFG("count", 12); u32 cp = (u32)sym_value(32, "cp"); u32 w[4]; bool encodable = E == 32 || cp <= 0x10FFFF; int wn = enc(E, encodable ? cp : 0xFFFD, w);
    int count = (int)sym_concretize(sym_range(0, maxc + 1, "count")) - 1; int room = (int)sym_concretize(sym_range(0, 9, "room")); int extra = CFG("extra", 0), bad = CFG("bad", -1); int k = CFG("k", 0);
    Sink<C, 3> s(room, extra, bad); if (k) cs.encode_fill_func()(s, count, (char32_t)cp); else cs.encode_fill(s, count, (char32_t)cp); int rec = s.recycles; s.finish();
    int total = count > 0 ? count * wn : 0;
    if (bad < 0) { sym_check(s.n == total, "encode_fill size"); if (rec) sym_cover("several chunks"); }
    else { sym_check(s.n <= total, "encode_fill to a bad destination"); if (!rec) sym_check(s.n == total, "encode_fill size"); else sym_cover("bad destination"); }
    for (int i = 0; i < s.n; ++i) sym_check(val(s.out[i]) == w[i % wn], "encode_fill unit");
    sym_trace(s.n); if (s.n) sym_trace(val(s.out[s.n - 1]));
}
template <class CS, class C> void counting(CS cs, int E) {
    u32 us[96]; int n = source(us, E, sym_config("pat", 999)); Heap<C> src(n); for (int i = 0; i < n; ++i) src[i] = (C)us[i];
    static Conv c; convert(c, E, 32, us, n, false);
    int mmax = CFG("max", n + 1); std::ptrdiff_t max = CFG("inf", 0) ? PTRDIFF_MAX : (std::ptrdiff_t)sym_concretize(sym_range(0, mmax, "max"));
    int want = max < c.n ? (int)max : c.n; int pos = want < c.n ? c.it[want].begin : n;
    auto r = cs.count_codepoints(src.begin(), src.end(), max);
    sym_check(r.count == want, "count_codepoints count"); sym_check(r.ptr - src.p == pos, "count_codepoints position");
    auto f = cs.count_codepoints_fast(src.begin(), src.end(), max);
    sym_check(f.ptr >= src.p && f.ptr <= src.p + n, "count_codepoints_fast stays inside the string"); sym_check(f.count <= max && f.count >= 0 && f.count <= n, "count_codepoints_fast count in range");
    if (c.errs == 0) { sym_check(f.count == want, "count_codepoints_fast count"); sym_check(f.ptr - src.p == pos, "count_codepoints_fast position"); sym_cover("valid"); } else sym_cover("invalid");
    if (want < c.n) sym_cover("maximum reached");
    sym_trace(r.count); sym_trace(r.ptr - src.p); sym_trace(f.count); sym_trace(f.ptr - src.p);
}
template <class CS, class C> void go(CS cs, int E, bool dyn) {
    switch (CFG("mode", 0)) { case 0: one<CS, C>(cs, E, dyn); break; case 1: unit<CS, C>(cs, E); break; case 2: fill<CS, C>(cs, E); break; case 3: counting<CS, C>(cs, E); break; }
}
extern "C" void sym_main() {
    int s = CFG("s", 8);
    if (CFG("dyn", 0)) {
        if (s == 8) go<strf::dynamic_charset<C8>, C8>(strf::utf_t<C8>{}.to_dynamic(), 8, true); else if (s == 16) go<strf::dynamic_charset<C16>, C16>(strf::utf_t<C16>{}.to_dynamic(), 16, true); else go<strf::dynamic_charset<C32>, C32>(strf::utf_t<C32>{}.to_dynamic(), 32, true);
    } else {
        if (s == 8) go<strf::utf_t<C8>, C8>({}, 8, false); else if (s == 16) go<strf::utf_t<C16>, C16>({}, 16, false); else go<strf::utf_t<C32>, C32>({}, 32, false);
    }
}
