// C14: digit groupings and numeric punctuation as objects (not printed).
#include "uni.h"
#include <strf.hpp>
#include <strf/locale.hpp>
#include "locales.h"
#include "sbcs_tables.h"
#include <langinfo.h>
using uni::u32;
static int choose(int lo, int hi, const char* name) { return (int)sym_concretize(sym_range((std::uint64_t)0, (std::uint64_t)(hi - lo), name)) + lo; }
struct G { int n; int g[8]; bool rep; bool none; };      // none: no separators at all
// number of separators in a number of d digits
static int count(const G& q, int d) {
    if (q.none || q.n == 0) return 0;
    int pos = 0, c = 0;
    for (int i = 0; i < q.n; ++i) { pos += q.g[i]; if (pos >= d) return c; ++c; }
    if (q.rep) while (true) { pos += q.g[q.n - 1]; if (pos >= d) return c; ++c; }
    return c;
}
template <class P> static int seps(const P& p, int d) { return p.separators_count(d); }
static int seps(const strf::numpunct<10>& p, int d) { return p.thousands_sep_count(d); }
template <class P> static bool any(const P& p, int d) { return p.any_separator(d); }
static bool any(const strf::numpunct<10>& p, int d) { return p.any_group_separation(d); }
template <class P> static void same(const P& p, const G& q, int dmax, const char* what) {
    int d = (int)sym_range(1, (std::uint64_t)dmax, "digits"), c = count(q, d);
    sym_check(seps(p, d) == c, "number of separators"); sym_check(any(p, d) == (c > 0), "any separator");
    strf::digits_distribution r = p.distribute(d);
    // rebuild the groups from the highest to the lowest
    int left = d; sym_check(r.highest_group > 0, "highest group is not empty");
    left -= r.highest_group; int k = c;                       // k separators remain
    auto low = r.low_groups; int mid = r.middle_groups_count; sym_check(mid == 0 || !low.empty(), "middle groups have a size");
    auto boundary = [&] { if (k <= 0) { sym_check(false, "too many groups"); return; } // the k-th separator from the right stands before `left` digits
        int pos = 0; for (int i = 0; i < k; ++i) pos += q.g[i < q.n ? i : q.n - 1]; sym_check(left == pos, "separator position"); --k; };
    if (mid) { int g = low.highest_group(); for (int i = 0; i < mid; ++i) { boundary(); left -= g; } low.pop_high(); }
    while (!low.empty()) { boundary(); left -= low.highest_group(); low.pop_high(); }
    sym_check(left == 0 && k == 0, "the groups hold all digits");
    if (c) sym_cover(what);
}
static void iterate(const strf::digits_grouping& g, const G& q) {
    auto it = g.get_iterator(); sym_check(g.empty() == (q.none || q.n == 0), "empty()");
    sym_check(it.ended() == (q.none || q.n == 0), "iterator of an empty grouping"); if (q.none || q.n == 0) return;
    for (int i = 0; i < q.n; ++i) {
        sym_check(!it.ended() && it.current() == q.g[i], "iterator group"); bool last = i + 1 == q.n;
        sym_check(it.is_last() == last && it.shall_repeat_current() == (last && q.rep) && it.is_final() == (last && !q.rep), "iterator position"); it.advance();
    }
    sym_check(it.ended(), "iterator end");
}
// C locale, as the harness wants it
static char l_dp[8], l_ts[8], l_gr[8], l_cs[16];
static struct lconv l_conv;
extern "C" struct lconv* localeconv(void) { l_conv.decimal_point = l_dp; l_conv.thousands_sep = l_ts; l_conv.grouping = l_gr; return &l_conv; }
extern "C" char* nl_langinfo(nl_item) { return l_cs; }
static const char* encs[] = {"UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15", "KOI8-R", "UTF-"};
static int bytes(char* b, int n, const char* name) { for (int i = 0; i < n; ++i) { b[i] = (char)sym_value(8, name); sym_assume(b[i] != 0); } b[n] = 0; return n; }
static u32 first(int enc, const char* s, int n) {            // n >= 1; 0xFFFFFFFF: unknown encoding
    if (!((unsigned char)s[0] & 0x80)) return (unsigned char)s[0];
    if (enc > 3) return 0xFFFFFFFF;
    if (enc == 0) { u32 u[8]; for (int i = 0; i < n; ++i) u[i] = (unsigned char)s[i]; uni::Step st = uni::dec8(u, n, false); return st.ok ? st.cp : 0xFFFD; }
    static const char* const names[] = {"", "latin", "3", "15"}; (void)names;
    int t = enc == 1 ? 1 : enc == 2 ? 3 : 14; u32 c = sbcs_table[t][(unsigned char)s[0]]; return c ? c : 0xFFFD;
}
static void sclear() { for (int i = 0; i < 8; ++i) l_dp[i] = l_ts[i] = l_gr[i] = 0; }
extern "C" void sym_main() {
    int mode = CFG("mode", 0), kmax = CFG("k", 3), dmax = CFG("dmax", 40); sclear();
    if (mode == 0) {                 // groups given as a list, a C string, or one by one
        G q{}; q.n = choose(0, kmax, "groups"); for (int i = 0; i < q.n; ++i) q.g[i] = choose(1, CFG("gmax", 31), "group"); q.rep = choose(0, 1, "repeat"); q.none = q.n == 0;
        int how = choose(0, 4, "how"); strf::digits_grouping g; int m = q.n; int a[8]; for (int i = 0; i < q.n; ++i) a[i] = q.g[i]; if (!q.rep) a[m++] = -1;
        if (how == 0 || how == 1) {
            auto mk = [&](auto... x) { if (how == 0) g = strf::digits_grouping(x...); else g = strf::numpunct<10>(x...).grouping(); };
            switch (m) { case 0: if (how) g = strf::numpunct<10>().grouping(); break; case 1: mk(a[0]); break; case 2: mk(a[0], a[1]); break; case 3: mk(a[0], a[1], a[2]); break; case 4: mk(a[0], a[1], a[2], a[3]); break;
              case 5: mk(a[0], a[1], a[2], a[3], a[4]); break; case 6: mk(a[0], a[1], a[2], a[3], a[4], a[5]); break; default: mk(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); }
        } else if (how == 2) {       // char 0x80..0xFF or CHAR_MAX ends without repetition
            char s[9]; int i = 0; for (; i < q.n; ++i) s[i] = (char)q.g[i]; if (!q.rep) { s[i] = (char)sym_range(0x7F, 0xFF, "end"); ++i; } s[i] = 0; g = strf::digits_grouping(s);
        } else {
            strf::digits_grouping_creator c; for (int i = 0; i < q.n; ++i) { if (how == 3) c.push_high(q.g[i]); else c.push_high((unsigned)q.g[i]); sym_check(!c.failed(), "creator accepts a valid group"); }
            g = q.rep ? c.finish() : c.finish_no_more_sep();
        }
        strf::digits_grouping e; sym_check((g == e) == q.none && (g != e) != q.none, "comparison with the empty grouping");
        if (choose(0, 3, "what") == 0) { if (how < 2) iterate(g, q); return; }
        if (choose(0, 1, "as numpunct")) { strf::numpunct<10> p(g); same(p, q, dmax, "separators"); } else same(g, q, dmax, "separators");
    } else if (mode == 1) {          // Windows style: "3;2;0"
        wchar_t s[12]; int n = choose(0, CFG("n", 5), "length"); 
        for (int i = 0; i < n; ++i) { s[i] = (wchar_t)sym_value(32, "c"); sym_assume(s[i] != 0); } s[n] = 0;
        // oracle: numbers of one or two digits separated by ';', the last one may be 0 and then the one before it repeats; any other text means no grouping
        G q{}; bool bad = n == 0; int i = 0;
        while (!bad) {
            int v = -1, nd = 0; while (i < n && nd < 2 && s[i] >= L'0' && s[i] <= L'9') { v = (nd ? v * 10 : 0) + (int)(s[i] - L'0'); ++i; ++nd; }
            if (nd == 0 || (i < n && s[i] != L';')) { bad = true; break; }
            if (v == 0) { if (i < n) bad = true; q.rep = true; break; }
            if (v > 31 || q.n == 6) q.none = true; else q.g[q.n++] = (int)sym_concretize((std::uint64_t)v);
            if (i == n) break; ++i; if (i == n) { bad = true; }
        }
        if (bad) q.none = true; if (q.n == 0) q.none = true;
        strf::digits_grouping g = strf::detail::parse_win_grouping(s);
        sym_check(g.empty() == q.none, "win grouping: empty"); if (q.none) { if (bad && n) sym_cover("malformed"); if (g.empty()) return; }
        same(g, q, CFG("dmax", 9), "win grouping");
    } else if (mode == 2 || mode == 3) {   // decimal point and separator from strings of the locale
        int enc = choose(0, 5, "encoding"); const char* en = encs[enc]; for (int i = 0;; ++i) { l_cs[i] = en[i]; if (!en[i]) break; }
        int nd = bytes(l_dp, choose(0, CFG("nd", 4), "point length"), "dp"), nt = bytes(l_ts, choose(0, CFG("nt", 1), "separator length"), "ts");
        G q{}; strf::digits_grouping g;
        if (mode == 2) { q.none = choose(0, 1, "no grouping"); if (!q.none) { q.n = 1; q.g[0] = 3; q.rep = true; g = strf::digits_grouping(3); } }
        else { int ng = bytes(l_gr, choose(0, CFG("ng", 2), "grouping length"), "grouping"); q.rep = true; bool over = false; for (int i = 0; i < ng && !over; ++i) { int v = (unsigned char)l_gr[i]; sym_assume(v <= 4 || v == 31 || v == 32 || v >= 126); if (v >= 127) { q.rep = false; over = true; } else if (v > 31) { q.none = true; over = true; l_gr[i + 1] = 0; } else q.g[q.n++] = (int)sym_concretize((std::uint64_t)v); } if (q.n == 0) q.none = true; }
        strf::numpunct<10> p = mode == 2 ? strf::detail::make_numpunct(encs[enc], l_dp, l_ts, g) : strf::locale_numpunct();
        u32 dp = nd == 0 ? 0xFFFD : first(enc, l_dp, nd); if (dp == 0xFFFFFFFF) dp = 0xFFFD;
        sym_check((u32)p.decimal_point() == dp, "decimal point of the locale");
        if (!q.none) {
            if (nt == 0) q.none = true; else { u32 ts = first(enc, l_ts, nt); if (ts == 0xFFFFFFFF) ts = 0xA0; else if (ts == 0xFFFD) q.none = true; if (!q.none) { sym_check((u32)p.thousands_sep() == ts, "thousands separator of the locale"); sym_cover("separator"); } }
        }
        sym_check(p.grouping().empty() == q.none, "locale grouping: empty"); if (!p.grouping().empty() && !q.none) same(p, q, CFG("dmax", 6), "locale grouping");
        sym_trace(p.decimal_point());
    } else if (mode == 4) {          // the predefined locales
        int d = choose(1, 13, "digits"); const strf::numpunct<10> def;
#define X(NAME, A, B, C2, D2, DP, TS) { strf::numpunct<10> p = strf::numpunct_##NAME; G q{}; q.g[0] = A; q.g[1] = B; q.g[2] = C2; q.g[3] = D2; while (q.n < 4 && q.g[q.n]) ++q.n; q.rep = true; q.none = q.n == 0; \
        sym_check((u32)p.decimal_point() == DP, "numpunct_" #NAME ": decimal point"); if (TS) sym_check((u32)p.thousands_sep() == TS, "numpunct_" #NAME ": thousands separator"); sym_check(p.thousands_sep_count(d) == count(q, d), "numpunct_" #NAME ": grouping"); }
        LOCALES(X)
        sym_cover("locales"); (void)def;
    } else if (mode == 5) {
        wchar_t s[3] = {(wchar_t)sym_value(32, "w"), (wchar_t)sym_value(32, "w"), 0}; u32 a = (u32)s[0], b = (u32)s[1];
        u32 r = (u32)strf::detail::decode_first_char_from_utf16(s); u32 e = a == 0 ? 0xFFFD : a < 0xD800 || a > 0xDFFF ? a : a <= 0xDBFF && b >= 0xDC00 && b <= 0xDFFF ? 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00) : 0xFFFD;
        sym_check(r == e, "first character of a UTF-16 string"); sym_trace(r); sym_cover("utf-16");
    } else if (mode == 6) {          // invalid groups are refused, and then nothing is grouped
        strf::digits_grouping_creator c; G q{}; bool fail = false; int n = choose(0, 7, "pushes"), bad = choose(0, n, "bad one");
        for (int i = 0; i < n; ++i) { bool sgn = i == bad ? choose(0, 1, "signed") == 0 : i & 1; int v; if (i == bad) { v = (int)sym_value(32, "group"); } else v = i == 0 ? choose(1, 31, "group") : 1 + i % 2;
            if (sgn) c.push_high(v); else c.push_high((unsigned)v); if (v < 1 || v > 31 || q.n >= 6) fail = true; else if (!fail) q.g[q.n++] = v; sym_check(c.failed() == fail, "failed()"); }
        q.rep = choose(0, 1, "repeat"); strf::digits_grouping g = q.rep ? c.finish() : c.finish_no_more_sep(); if (fail || q.n == 0) { q.none = true; q.n = 0; if (fail) sym_cover("refused"); }
        sym_check(g.empty() == q.none, "empty after failure"); sym_check(c.failed() == fail, "failed() afterwards");
        if (!g.empty() && !q.none) { int d = choose(1, 9, "digits"); sym_check(g.separators_count(d) == count(q, d), "separators of a created grouping"); }
    } else if (mode == 7) {          // the other punctuation facets and conversions
        u32 a = (u32)sym_value(32, "dp"), b = (u32)sym_value(32, "ts"); int d = (int)sym_range(1, 70, "digits");
        strf::no_grouping<10> ng; sym_check(ng.decimal_point() == U'.', "no_grouping default"); ng.decimal_point((char32_t)a); sym_check((u32)ng.decimal_point() == a && ng.grouping().empty() && ng.thousands_sep_count(d) == 0 && !ng.any_group_separation(d) && ng.distribute(d).highest_group == d && ng.distribute(d).middle_groups_count == 0 && ng.distribute(d).low_groups.empty(), "no_grouping");
        strf::numpunct<10> p(ng); sym_check((u32)p.decimal_point() == a && p.grouping().empty(), "numpunct from no_grouping");
        sym_check(strf::no_grouping<10>{}.decimal_point((char32_t)a) == ng && (strf::no_grouping<10>{}.decimal_point((char32_t)b) == ng) == (a == b) && (strf::no_grouping<10>{}.decimal_point((char32_t)b) != ng) == (a != b), "no_grouping comparison");
        strf::default_numpunct<16> dn; strf::numpunct<16> p2(dn); sym_check(p2.grouping().empty() && p2.decimal_point() == U'.' && dn.decimal_point() == U'.' && dn.thousands_sep_count(d) == 0 && !dn.any_group_separation(d) && dn.distribute(d).highest_group == d && dn.grouping().empty(), "default_numpunct");
        strf::numpunct<10> x(3), y(3); x.thousands_sep((char32_t)a).decimal_point((char32_t)b); y = strf::numpunct<10>(3).thousands_sep((char32_t)a).decimal_point((char32_t)b); sym_check(x == y && !(x != y) && (u32)x.thousands_sep() == a && (u32)x.decimal_point() == b, "numpunct setters");
        y.decimal_point(U'.'); sym_check((x == y) == (b == U'.'), "numpunct comparison"); y.decimal_point((char32_t)b).thousands_sep(U','); sym_check((x == y) == (a == U','), "numpunct comparison"); y.thousands_sep((char32_t)a).grouping(strf::digits_grouping(2)); sym_check(x != y, "numpunct comparison");
        sym_cover("facets");
    }
}
