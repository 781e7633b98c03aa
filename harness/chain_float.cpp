// C21, C15: sequences of format functions on floating-point numbers, see chain.h. cfg: k, first, hexa (0: d1 d2.25, digits symbolic; 1: 12.25)
#define CHAIN
#define KK_ 3
#define MODE_ 0
#include "float.cpp"
#include "chain.h"
static Fmt f; static T val; static bool neg, hexa; static int what; static Dec dec;
template <class Y> __attribute__((noinline)) void verify(const Y& y) {
    X body, e, doc; Fmt g = f; g.a.on = true; g.ng = 1; g.g[0] = 1; g.rep = true; g.sep = '\''; g.dp = ';';
    if (g.nota == HEX) {
        int h[14] = {8, 8}, fr = 2; if (g.p >= 0) fr = g.p; if (g.p == 1) h[1] = 0; hex_text(body, g, h, 2, false, 3, 1, fr); layout(e, g, neg, true, true, body);
        run(e, g, what, 4, y); sym_cover("hexadecimal");
    } else {
        kf3 = false; number(body, g, dec); layout(e, g, neg, false, true, body);
        if (strip) { kf3 = true; X b2, e2; number(b2, g, dec); layout(e2, g, neg, false, true, b2); run(e2, g, what, 4, y, "KF3 zeros that operator* keeps are removed when digits are dropped", &e); }
        else run(e, g, what, 4, y);
        sym_cover("decimal");
    }
}
template <class Y> void walk(Y x, int k) {
    if (k == 0) { verify(x); return; }
    auto next = [&](const auto& y) { walk(y, k - 1); };
    static const int PR[] = {1, 3}, PD[] = {3, 9}, WD[] = {4, 14};
    typedef std::decay_t<decltype(x.get_float_format())> FF; constexpr bool isdef = std::is_same<FF, strf::default_float_format>::value;
    switch (choose(0, 22, "function")) {
    case 0: f.sign = '+'; return step(x, PRE_FN_(+), next);
    case 1: f.sign = ' '; return step(x, FN_(.fill_sign()), next);
    case 2: f.sign = ' '; return step(x, PRE_FN_(~), next);
    case 3: f.sp = true; return step(x, PRE_FN_(*), next);
    case 4: f.punct = true; return step(x, PRE_FN_(!), next);
    case 5: f.punct = true; return step(x, FN_(.punct()), next);
    case 6: { int p = f.p = PR[choose(0, 1, "p")]; return step(x, FN_(.p(p)), next); }
    case 7: { int p = f.pad0 = PD[choose(0, 1, "p")]; return step(x, FN_(.pad0(p)), next); }
    case 8: { int n = f.nota = choose(0, hexa ? 3 : 2, "notation"); auto m = n == GEN ? strf::float_notation::general : n == FIX ? strf::float_notation::fixed : n == SCI ? strf::float_notation::scientific : strf::float_notation::hex; return step(x, FN_(.float_notation(m)), next); }
    case 9: f.nota = SCI; return step(x, FN_(.sci()), next);
    case 10: f.nota = FIX; return step(x, FN_(.fixed()), next);
    case 11: if (!hexa) return; f.nota = HEX; return step(x, FN_(.hex()), next);
    case 12: f.nota = GEN; return step(x, FN_(.gen()), next);
    case 13: { f.p = 3; f.pad0 = 9; f.nota = SCI; f.sign = '+'; f.sp = true; f.punct = false; strf::float_format_no_punct d; d.precision = 3; d.pad0width = 9; d.notation = strf::float_notation::scientific; d.sign = strf::showsign::positive_also; d.showpoint = true; return step(x, FN_(.set_float_format(d)), next); }
    case 14: { f.p = 1; f.pad0 = 3; f.nota = FIX; f.sign = ' '; f.sp = false; f.punct = true; strf::float_format d; d.precision = 1; d.pad0width = 3; d.notation = strf::float_notation::fixed; d.sign = strf::showsign::fill_instead_of_positive; d.punctuate = true; return step(x, FN_(.set_float_format(d)), next); }
    case 15: { Align a = f.a; f = Fmt{}; f.a = a; if constexpr (isdef) return step(x, FN_(.set_float_format(strf::default_float_format{})), next); return; }
    case 16: { f.a.fill = (u32)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "fill"); char c = (char)f.a.fill; return step(x, FN_(.fill(c)), next); }
    case 17: { f.a.fill = U'\u20AC'; return step(x, FN_(.fill(U'\u20AC')), next); }
    case 18: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 0; return step(x, FN_(< w), next); }
    case 19: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 1; return step(x, FN_(> w), next); }
    case 20: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 2; return step(x, FN_(^ w), next); }
    case 21: { f.a.fill = U'*'; f.a.width = 14; f.a.al = 2; Align a = f.a; return step(x, FN_(.set_alignment_format(afmt(a))), next); }
    default: { f.a = Align{true, U' ', 0, 1}; return step(x, FN_(.set_alignment_format(strf::default_alignment_format{})), next); }
    }
}
extern "C" void sym_main() {
    f = Fmt{}; f.a = Align{true, U' ', 0, 1}; what = CFG("what", 8); hexa = CFG("hexa", 0); neg = choose(0, 1, "negative"); dec = Dec{};
    dec.n = 4; dec.e10 = -2; dec.d[0] = hexa ? 1 : (int)sym_digit(1, 9, "d"); dec.d[1] = hexa ? 2 : (int)sym_digit(0, 9, "d"); dec.d[2] = 2; dec.d[3] = 5;
    std::uint64_t m = 0; for (int i = 0; i < 4; ++i) m = m * 10 + (std::uint64_t)dec.d[i];
    // the bits: those of 12.25, or (their conversion to decimal being replaced) any
    std::uint64_t be = (1u << (EB - 1)) - 1 + 3, bm = (std::uint64_t)0x88 << (MB - 8);
    if (!hexa) { be = sym_range((std::uint64_t)1, (std::uint64_t)((1 << EB) - 2), "bits of the exponent"); bm = sym_value(MB, "bits of the significand"); }
#if defined(SYMX)
    g_m10 = m; g_e10 = -2; g_exp = be; g_man = bm; g_set = true; val = from_bits(neg, be, bm);
#else
    (void)be; (void)bm; val = (T)m / 100; if (neg) val = -val;
#endif
    int k = CFG("k", 2), first = CFG("first", -1); if (first < 0) first = choose(0, 13, "first");
    switch (first) {
    case 0: walk(strf::fmt(val), k); break;
    case 1: f.nota = FIX; walk(strf::fixed(val), k); break;
    case 2: f.nota = FIX; f.p = 3; walk(strf::fixed(val, 3), k); break;
    case 3: f.nota = SCI; walk(strf::sci(val), k); break;
    case 4: f.nota = SCI; f.p = 1; walk(strf::sci(val, 1), k); break;
    case 5: walk(strf::gen(val), k); break;
    case 6: f.p = 3; walk(strf::gen(val, 3), k); break;
    case 7: f.pad0 = 8; walk(strf::pad0(val, 8), k); break;
    case 8: f.punct = true; walk(strf::punct(val), k); break;
    case 9: f.a.width = 9; f.a.al = 1; walk(strf::right(val, 9), k); break;
    case 10: f.a.width = 9; f.a.al = 0; f.a.fill = '~'; walk(strf::left(val, 9, '~'), k); break;
    case 11: f.a.width = 9; f.a.al = 2; f.a.fill = U'\u20AC'; walk(strf::center(val, 9, U'\u20AC'), k); break;
    case 12: f.a.width = 9; f.a.al = 0; walk(strf::left(val, 9), k); break;
    default: if (!hexa) return; f.nota = HEX; walk(strf::hex(val), k); break;
    }
}
