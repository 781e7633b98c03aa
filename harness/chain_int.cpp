// C13-C15: sequences of format functions on integers, see chain.h. cfg: k number of format functions, first (first call, -1 any), mask of functions
#ifndef TT_
#define TT_ int
#endif
#ifndef CC_
#define CC_ char
#endif
#include "chain.h"
#include <limits>
using namespace px;
typedef TT_ T; typedef std::make_unsigned<T>::type U; typedef CC_ C;
#include "intmodel.h"
static Fmt f; static T val; static unsigned low; static int kind, what;
template <int B, bool P> int base_(strf::int_format_static_base_and_punct<B, P>) { return B; }
template <class X> struct BaseOf { static constexpr int v = 10; static constexpr bool nopad = false; static constexpr bool dyn = false; };
template <int B> struct BaseOf<strf::int_format_no_pad0_nor_punct<B>> { static constexpr bool nopad = true; static constexpr int v = B; static constexpr bool dyn = false; };
template <int B, bool P> struct BaseOf<strf::int_format_static_base_and_punct<B, P>> { static constexpr bool nopad = false; static constexpr int v = B; static constexpr bool dyn = false; };
template <> struct BaseOf<strf::int_format> { static constexpr bool nopad = false; static constexpr int v = 0; static constexpr bool dyn = true; };
template <class X> __attribute__((noinline)) void verify(const X& x) {
    Num n{}; n.v = val; n.neg = val < 0 && f.base == 10; n.zero = val == 0;
    // the value is 1232 + low (low < 8), its opposite, or 0
    if (kind == 2) { n.n = 1; n.dg[0] = '0'; }
    else if (kind == 1 && f.base != 10) { U m = (U)(0 - (U)1240); int sh = f.base == 16 ? 4 : f.base == 8 ? 3 : 1; int bits = sizeof(T) * 8, k = (bits + sh - 1) / sh; n.n = k; for (int i = 0; i < k; ++i) { unsigned d = (unsigned)(m >> (sh * (k - 1 - i))) & ((1u << sh) - 1); n.dg[i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); } }
    else if (f.base == 10) { n.n = 4; n.dg[0] = '1'; n.dg[1] = '2'; n.dg[2] = kind == 1 ? '4' : '3'; n.dg[3] = (char)(kind == 1 ? '0' : '2' + low); }
    else { unsigned m = 1232; int sh = f.base == 16 ? 4 : f.base == 8 ? 3 : 1, k = f.base == 16 ? 3 : f.base == 8 ? 4 : 11; n.n = k; for (int i = 0; i < k; ++i) { unsigned d = (m >> (sh * (k - 1 - i))) & ((1u << sh) - 1); if (sh > 1 && i == k - 1) d += low; else if (sh == 1 && i >= k - 3) d = low >> (k - 1 - i) & 1; n.dg[i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); } }
    if (f.base == 10) f.showbase = false;
    Text<C> e; Fmt g = f; g.a.on = true; g.sepvalid = true; expect(e, n, g);
    check(e, what, 4, true, strf::pack(strf::numpunct<10>(3).thousands_sep(U'\''), strf::numpunct<16>(2).thousands_sep(U':'), strf::numpunct<8>(1).thousands_sep(U'_'), strf::numpunct<2>(4).thousands_sep(U'.')), x);
    sym_cover(f.a.width ? "aligned" : "not aligned");
}
static void punctuate() { f.punct = true; }
template <class X> void walk(X x, int k) {
    if (k == 0) {
        static const u32 sp[] = {'\'', ':', '_', '.'}; static const int gr[] = {3, 2, 1, 4}; int i = f.base == 10 ? 0 : f.base == 16 ? 1 : f.base == 8 ? 2 : 3; f.sep = sp[i]; f.ng = 1; f.g[0] = gr[i]; f.rep = true;
        verify(x); return;
    }
    typedef BaseOf<std::decay_t<decltype(x.get_int_format())>> BO; constexpr bool dyn = BO::dyn; constexpr int D = dyn ? 3 : 7;   // hex() and its siblings do not compile on lvalues of the dynamic format
    auto next = [&](const auto& y) { walk(y, k - 1); };
    static const int PR[] = {2, 6}, PD[] = {3, 9}, WD[] = {4, 12};
    switch (choose(0, 23, "function")) {
    case 0: f.base = 16; return step<dyn ? 1 : BO::v == 16 ? 1 : D>(x, FN_(.hex()), next);
    case 1: f.base = 10; return step<dyn ? 1 : D>(x, FN_(.dec()), next);
    case 2: f.base = 8; return step<dyn ? 1 : D>(x, FN_(.oct()), next);
    case 3: f.base = 2; return step<dyn ? 1 : D>(x, FN_(.bin()), next);
    case 4: { int p = f.prec = PR[choose(0, 1, "p")]; return step(x, FN_(.p(p)), next); }
    case 5: { int p = f.pad0 = PD[choose(0, 1, "p")]; return step(x, FN_(.pad0(p)), next); }
    case 6: if constexpr (dyn || BO::v == 10) { f.sign = '+'; return step(x, PRE_FN_(+), next); } return;
    case 7: if constexpr (dyn || BO::v == 10) { f.sign = ' '; return step(x, FN_(.fill_sign()), next); } return;
    case 8: if constexpr (dyn || BO::v == 10) { f.sign = ' '; return step(x, PRE_FN_(~), next); } return;
    case 9: if constexpr (dyn || BO::v != 10) { f.showbase = true; return step(x, PRE_FN_(*), next); } return;
    case 10: f.punct = true; return step(x, FN_(.punct()), next);
    case 11: f.punct = true; return step(x, PRE_FN_(!), next);
    case 12: { static const int bs[] = {10, 16, 8, 2}; int b = f.base = bs[choose(0, 3, "base")]; return step(x, FN_(.base(b)), next); }
    case 13: { f.a.fill = (u32)sym_range((std::uint64_t)0x21, (std::uint64_t)0x7E, "fill"); char c = (char)f.a.fill; return step(x, FN_(.fill(c)), next); }
    case 14: { f.a.fill = U'\u20AC'; return step(x, FN_(.fill(U'\u20AC')), next); }
    case 15: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 0; return step(x, FN_(< w), next); }
    case 16: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 1; return step(x, FN_(> w), next); }
    case 17: { int w = f.a.width = WD[choose(0, 1, "w")]; f.a.al = 2; return step(x, FN_(^ w), next); }
    case 18: { f.base = 16; f.prec = f.pad0 = 0; f.punct = false; f.sign = 0; f.showbase = true; strf::int_format_no_pad0_nor_punct<16> d; d.showbase = true; if constexpr (!dyn && !std::is_same<decltype(x.get_int_format()), strf::int_format_static_base_and_punct<BO::v, true>>::value && !std::is_same<decltype(x.get_int_format()), strf::int_format_static_base_and_punct<BO::v, false>>::value) return step<BO::v == 16 ? 1 : 7>(x, FN_(.set_int_format(d)), next); return; }
    case 19: { f.base = 8; f.prec = 6; f.pad0 = 9; f.punct = true; f.sign = 0; f.showbase = true; strf::int_format_static_base_and_punct<8, true> d; d.precision = 6; d.pad0width = 9; d.showbase = true; if constexpr (!dyn && !(BO::nopad && BO::v != 8)) return step(x, FN_(.set_int_format(d)), next); return; }
    case 20: { strf::int_format d; d.base = f.base = 10; d.precision = f.prec = 2; d.pad0width = f.pad0 = 3; d.punctuate = f.punct = true; f.sign = '+'; d.sign = strf::showsign::positive_also; f.showbase = false; return step(x, FN_(.set_int_format(d)), next); }
    case 21: { f.base = 10; f.prec = f.pad0 = 0; f.punct = f.showbase = false; f.sign = 0; if constexpr (std::is_same<std::decay_t<decltype(x.get_int_format())>, strf::default_int_format>::value) return step<5>(x, FN_(.set_int_format(strf::default_int_format{})), next); return; }
    case 22: { f.a.fill = U'*'; f.a.width = 12; f.a.al = 2; Align a = f.a; return step(x, FN_(.set_alignment_format(afmt(a))), next); }
    default: { f.a = Align{true, U' ', 0, 1}; return step(x, FN_(.set_alignment_format(strf::default_alignment_format{})), next); }
    }
}
extern "C" void sym_main() {
    f = Fmt{}; f.base = 10; f.a = Align{true, U' ', 0, 1}; what = CFG("what", 8); kind = choose(0, CFG("kinds", 2), "kind"); low = 0; val = 0;
    if (kind == 0) { low = (unsigned)sym_range((std::uint64_t)0, (std::uint64_t)7, "low"); val = (T)(1232 + low); } else if (kind == 1) val = (T)-1240;
    int k = CFG("k", 2), first = CFG("first", -1); if (first < 0) first = choose(0, 11, "first");
    switch (first) {
    case 0: walk(strf::fmt(val), k); break;
    case 1: f.base = 16; walk(strf::hex(val), k); break;
    case 2: f.base = 10; walk(strf::dec(val), k); break;
    case 3: f.base = 8; walk(strf::oct(val), k); break;
    case 4: f.base = 2; walk(strf::bin(val), k); break;
    case 5: f.pad0 = 7; walk(strf::pad0(val, 7), k); break;
    case 6: f.punct = true; walk(strf::punct(val), k); break;
    case 7: f.a.width = 9; f.a.al = 1; walk(strf::right(val, 9), k); break;
    case 8: f.a.width = 9; f.a.al = 0; f.a.fill = '~'; walk(strf::left(val, 9, '~'), k); break;
    case 9: f.a.width = 9; f.a.al = 2; f.a.fill = U'\u20AC'; walk(strf::center(val, 9, U'\u20AC'), k); break;
    case 10: f.a.width = 9; f.a.al = 0; walk(strf::left(val, 9), k); break;
    default: f.a.width = 9; f.a.al = 1; f.a.fill = '0'; walk(strf::right(val, 9, '0'), k); break;
    }
}
