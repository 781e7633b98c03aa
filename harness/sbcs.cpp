// Single-byte charsets against the tables of their standards.
// cfg: cs (index in sbcs_list.h), mode, n, fl, room
#include "trans.h"
#include "sbcs_tables.h"
using namespace tr;
static u32 decode(int cs, unsigned b) { u32 c = sbcs_table[cs][b & 255]; return c == 0 && b != 0 ? 0xFFFFFFFF : c; }
// byte for a code point or 0x100: chosen nondeterministically and verified, so the table is not searched
static const char* NAMES[] = {"ASCII","ISO-8859-1","ISO-8859-2","ISO-8859-3","ISO-8859-4","ISO-8859-5","ISO-8859-6","ISO-8859-7","ISO-8859-8","ISO-8859-9","ISO-8859-10","ISO-8859-11","ISO-8859-13","ISO-8859-14","ISO-8859-15","ISO-8859-16","windows-1250","windows-1251","windows-1252","windows-1253","windows-1254","windows-1255","windows-1256","windows-1257","windows-1258"};
static unsigned encode(int cs, u32 cp) {       // linear inversion of the table without branches on cp
    unsigned r = 0x100;
    for (unsigned b = 0; b < 256; ++b) { u32 c = decode(cs, b); r = (c <= 0x10FFFF && c == cp) ? b : r; }
    return r;
}
struct KindRec : strf::transcoding_error_notifier { int inv = 0, uns = 0; void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { ++inv; } void unsupported_codepoint(const char*, unsigned) override { ++uns; } };
template <class CS, class C> static void go(int cs, CS, const char* name) {
    int mode = CFG("mode", 0), n = CFG("n", 2), fl = CFG("fl", 0);
    if (mode == 0) {           // every byte
        C b = (C)sym_value(8, "b"); u32 want = decode(cs, (unsigned char)b); u32 d = CS::decode_unit(b);
        sym_check(d == (want == 0xFFFFFFFF ? 0xFFFD : want), "decode_unit");
        if (want == 0xFFFFFFFF) sym_cover("unassigned byte");
        else { C o[2] = {(C)1, (C)1}; C* e = CS::encode_char(o, (char32_t)want); sym_check(e == o + 1 && o[0] == b && o[1] == (C)1, "byte -> code point -> byte"); }
        sym_trace(d); return;
    }
    if (mode == 1) {           // every 32-bit value
        u32 cp = (u32)sym_value(32, "cp"); unsigned b = encode(cs, cp);
        int v = (int)CS::validate((char32_t)cp); C o[2] = {(C)1, (C)1}; C* e = CS::encode_char(o, (char32_t)cp);
        sym_check(e == o + 1 && o[1] == (C)1, "encode_char length"); sym_check(CS::encoded_char_size((char32_t)cp) == 1, "encoded_char_size");
        if (cp == 0xFFFD) { sym_check(val(o[0]) == '?', "encode_char(U+FFFD)"); }
        else if (b < 0x100) { sym_check(v == 1, "validate: representable"); sym_check(val(o[0]) == b, "encode_char: representable"); sym_check((u32)CS::decode_unit(o[0]) == cp, "round trip"); sym_cover("representable"); }
        else { sym_check(v == -1, "validate: not representable"); sym_check(val(o[0]) == '?', "encode_char: not representable"); sym_cover("not representable"); }
        sym_check((u32)CS::replacement_char() == '?' && CS::replacement_char_size() == 1, "replacement");
        sym_check(streq(CS::name(), name), "charset name");
        sym_trace(v); sym_trace(val(o[0])); return;
    }
    int room = (int)sym_concretize(sym_range(0, n + 1, "room")); List c; c.len = n;
    if (mode == 2 || mode == 3) {      // to UTF-32 / to itself
        Heap<C> src(n);
        for (int i = 0; i < n; ++i) { src[i] = (C)sym_value(8, "b"); u32 w = decode(cs, val(src[i])); bool bad = w == 0xFFFFFFFF; It& t = c.it[c.n++]; t.begin = i; t.len = 1; t.k = bad ? INVALID : OK; t.outlen = 1; t.out[0] = mode == 2 ? (bad ? 0xFFFD : w) : (bad ? '?' : val(src[i])); }
        bool valid = true; for (int i = 0; i < n; ++i) valid &= c.it[i].k == OK;
        if (mode == 2) { check<strf::static_transcoder<C, char32_t, CS::id(), strf::csid_utf32>, C, char32_t>(c, src, fl, room, true, name, "UTF-32"); if (valid) check<strf::static_transcoder<C, char32_t, CS::id(), strf::csid_utf32>, C, char32_t>(c, src, fl, room, false, name, "UTF-32"); }
        else { check<strf::static_transcoder<C, C, CS::id(), CS::id()>, C, C>(c, src, fl, room, true, name, name); if (valid) check<strf::static_transcoder<C, C, CS::id(), CS::id()>, C, C>(c, src, fl, room, false, name, name); }
        if (!valid) sym_cover("invalid byte");
        // counting code points: one per byte
        std::ptrdiff_t max = (std::ptrdiff_t)sym_range(0, n + 1, "max"); auto q = CS::count_codepoints(src.begin(), src.end(), max); auto qf = CS::count_codepoints_fast(src.begin(), src.end(), max);
        std::ptrdiff_t want = max < n ? max : n; sym_check(q.count == want && q.ptr == src.p + want, "count_codepoints"); sym_check(qf.count == want && qf.ptr == src.p + want, "count_codepoints_fast");
        return;
    }
    // from UTF-32
#ifdef ALT
    typedef wchar_t W;
#else
    typedef char32_t W;
#endif
    Heap<W> src(n); bool valid = true;
    for (int i = 0; i < n; ++i) {
        u32 cp = (u32)sym_value(32, "cp"); src[i] = (W)cp; bool bad = cp > 0x10FFFF || (!(fl & 1) && cp >= 0xD800 && cp <= 0xDFFF);
        It& t = c.it[c.n++]; t.begin = i; t.len = 1; t.cp = cp; t.outlen = 1;
        if (bad) { t.k = INVALID; t.out[0] = '?'; valid = false; sym_cover("invalid code point"); }
        else if (cp == 0xFFFD) { t.k = OK; t.out[0] = '?'; sym_cover("U+FFFD"); }
        else if (cp >= 0xE000 && cp <= 0xFFFF && !(fl & 1)) {   // known finding KF1: the library calls these invalid; whatever it does must be one of the two, consistently
            KindRec kr; C tmp[1]; strf::static_transcoder<W, C, strf::csid_utf32, CS::id()>::transcode(src.p + i, src.p + i + 1, tmp, tmp + 1, &kr, strf::transcode_flags::none);
            sym_check(kr.inv + kr.uns == 1, "one notification for a code point the charset lacks"); sym_known(kr.inv == 0, "KF1 U+E000..U+FFFF reported as invalid sequence");
            t.k = kr.inv ? INVALID : UNSUPPORTED; t.out[0] = '?'; }
        else { unsigned b = encode(cs, cp); if (b < 0x100) { t.k = OK; t.out[0] = b; } else { t.k = UNSUPPORTED; t.out[0] = '?'; sym_cover("unsupported"); } }
    }
    check<strf::static_transcoder<W, C, strf::csid_utf32, CS::id()>, W, C>(c, src, fl, room, true, "UTF-32", name);
    if (valid) for (int i = 0; i < n; ++i) if (c.it[i].k == INVALID) c.it[i].k = UNSUPPORTED;
    if (valid) check<strf::static_transcoder<W, C, strf::csid_utf32, CS::id()>, W, C>(c, src, fl, room, false, "UTF-32", name);
}
extern "C" void sym_main() {
    int cs = CFG("cs", 0);
#ifdef ALT
    typedef char8_t C;
#else
    typedef char C;
#endif
    switch (cs) {
#define SBCS(I, N) case I: go<strf::static_charset<C, strf::csid_##N>, C>(I, strf::static_charset<C, strf::csid_##N>(), NAMES[I]); break;
#include "sbcs_list.h"
    }
}
