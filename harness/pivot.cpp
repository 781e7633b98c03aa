// C07: every route of conversion between two charsets gives the same output, positions, stop reason and notifications.
// compile flags: SCS_/DCS_ charset templates (e.g. strf::utf8_t), SC_/DC_ code units, SE_/DE_: 8, 16, 32 or 1000+index in sbcs_tables.h
// cfg: pat (uni.h; 7 = 14 letters x), fl flags, lo/hi room (or limit) range, routes mask, dext
#include "trans.h"
#include "sink.h"
#include "sbcs_tables.h"
using namespace tr;
#ifndef DYN_
#define DYN_ 0    // 1 both charset objects are type-erased, 2 the source's, 3 the destination's
#endif
typedef SCS_<SC_> S; typedef DCS_<DC_> D;
#if DYN_
#define TPL(f, g, ...) f(scs, dcs, __VA_ARGS__)
#else
#define TPL(f, g, ...) f<SCS_, g>(__VA_ARGS__)
#endif
template <class X> static auto mk(X x, std::true_type) { return strf::dynamic_charset<typename X::code_unit>(x); }
template <class X> static auto mk(X x, std::false_type) { return x; }
static u32 tdec(int cs, unsigned b) { u32 c = sbcs_table[cs][b & 255]; return c == 0 && b != 0 ? 0xFFFFFFFF : c; }
static unsigned tenc(int cs, u32 cp) { unsigned r = 0x100; for (unsigned b = 0; b < 256; ++b) { u32 c = tdec(cs, b); r = (c <= 0x10FFFF && c == cp) ? b : r; } return r; }
static int src_units(u32* s, std::uint64_t pat) {
    int d[20], k = 0, n = 0; while (pat) { d[k++] = (int)(pat % 10); pat /= 10; }
    while (k--) { if (d[k] == 7) for (int i = 0; i < 14; ++i) s[n++] = 'x'; else if (d[k] == 5) s[n++] = 'x'; else if (SE_ >= 1000) s[n++] = (u32)sym_value(8, "b"); else n += source(s + n, SE_, (std::uint64_t)d[k]); }
    return n;
}
struct KRec : strf::transcoding_error_notifier {      // each kind in order
    struct I { const void* p; long n; } inv[64]; u32 uns[64]; int ni = 0, nu = 0; bool bad = false;
    void invalid_sequence(int cus, const char* name, const void* p, std::ptrdiff_t k) override { if (cus != (int)sizeof(SC_) || !streq(name, S::name())) bad = true; if (ni < 64) inv[ni] = {p, (long)k}; ++ni; }
    void unsupported_codepoint(const char* name, unsigned cp) override { if (!streq(name, D::name())) bad = true; if (nu < 64) uns[nu] = cp; ++nu; }
};
static List c; static const SC_* src;
static void notes(const KRec& r, const R& e, const char* what) {
    int wi = 0, wu = 0, mi = 0, mu = 0;   // of the whole text; before the stop
    sym_check(!r.bad, "unit size and charset names of the notifications");
    for (int i = 0; i < c.n; ++i) {
        const It& t = c.it[i]; bool before = t.begin < e.src || (t.begin == e.src && e.reason > 1);
        if (t.k == INVALID) { if (wi < r.ni) { sym_check(r.inv[wi].p == (const void*)(src + t.begin) && r.inv[wi].n == t.len, what); } ++wi; mi += before && (t.begin < e.src || e.reason == 3); }
        if (t.k == UNSUPPORTED) { if (wu < r.nu) sym_check(r.uns[wu] == t.cp, what); ++wu; mu += before && (t.begin < e.src || e.reason == 2); }
    }
    sym_check(r.ni <= wi && r.nu <= wu, what);
    if (e.reason == 0) sym_check(r.ni == wi && r.nu == wu, what); else sym_check(r.ni >= mi && r.nu >= mu, what);
    sym_trace(r.ni); sym_trace(r.nu);
}
static void position(const SC_* stale, int dist, const R& e, const char* what) {
    long p = stale - src; sym_check(p >= 0 && p <= c.len && dist >= 0, what); int k = -1;
    for (int i = 0; i <= c.n; ++i) if ((i < c.n ? c.it[i].begin : c.len) == p) k = i;
    sym_check(k >= 0 && k + dist <= c.n, what); if (k < 0 || k + dist > c.n) return;
    sym_check((k + dist < c.n ? c.it[k + dist].begin : c.len) == e.src, what);
}
template <class G> static void output(G g, int n, const R& e, const char* what) {
    sym_check(n == e.dst, what); int o = 0;
    for (int i = 0; i < c.n && o < e.dst && o < n; ++i) for (int j = 0; j < c.it[i].outlen; ++j, ++o) sym_check(val(g(o)) == c.it[i].out[j], what);
}
extern "C" void sym_main() {
    static u32 us[64]; int fl = CFG("fl", 0), routes = CFG("routes", 0xFFF); c.n = 0;
    int n = c.len = src_units(us, (std::uint64_t)sym_config("pat", 99));
    Heap<SC_> sb(n); for (int i = 0; i < n; ++i) sb[i] = (SC_)us[i]; src = sb.p;
    bool valid = true; int total = 0;
    for (int p = 0; p < n;) {
        It& t = c.it[c.n++]; t.begin = p; bool ok; u32 cp;
        if (SE_ >= 1000) { cp = tdec(SE_ - 1000, us[p]); ok = cp != 0xFFFFFFFF; t.len = 1; } else { Step st = dec(SE_, us + p, n - p, fl & 1); ok = st.ok; cp = st.cp; t.len = st.len; }
        t.cp = cp; t.k = ok ? OK : INVALID;
        if (DE_ >= 1000) { t.outlen = 1; if (!ok) t.out[0] = '?'; else if (cp == 0xFFFD) t.out[0] = '?'; else { if (SE_ == 32 && (cp >= 0xE000 && cp <= 0xFFFF)) { sym_assume(false); return; } unsigned b = tenc(DE_ - 1000, cp); if (b < 0x100) t.out[0] = b; else { t.out[0] = '?'; t.k = UNSUPPORTED; sym_cover("unsupported"); } } }
        else t.outlen = enc(DE_, ok ? cp : 0xFFFD, t.out);
        if (!ok) { valid = false; sym_cover("invalid"); } total += t.outlen; p += t.len;
    }
    auto flags = static_cast<strf::transcode_flags>(fl);
    {
    int hi = CFG("hi", 2), a = total - hi; if (a < 0) a = 0; int room = (int)sym_concretize(sym_range(a, total + 1, "room"));
    R e = run(c, 0, room, fl), full = run(c, 0, 1 << 20, fl); if (e.reason) sym_cover(e.reason == 1 ? "no space" : e.reason == 2 ? "stop unsupported" : "stop invalid");
    const SC_* end = src + n;
    auto scs = mk(S(), std::integral_constant<bool, DYN_ == 1 || DYN_ == 2>()); auto dcs = mk(D(), std::integral_constant<bool, DYN_ == 1 || DYN_ == 3>()); int bad = (int)sym_concretize(sym_range(0, 2, "failure")) - 1;    // the recycle after which the destination is bad
    for (int k = 0; k < 6; ++k) if (routes & (1 << k)) {
        if (k >= 3 && !valid) break;
        static const char* nm[] = {"transcode", "decode_encode", "decode_encode with the safe encoder", "unsafe_transcode", "unsafe_decode_encode", "unsafe_decode_encode by templates"};
        Heap<DC_> d(room); KRec r;
        auto q = k == 0 ? strf::transcode(scs, dcs, src, end, d.begin(), d.end(), &r, flags)
               : k == 1 ? TPL(strf::decode_encode, DCS_, src, end, d.begin(), d.end(), &r, flags)
               : k == 2 ? strf::decode_encode(scs.to_u32().transcode_func(), dcs.from_u32().unsafe_transcode_func(), src, end, d.begin(), d.end(), &r, flags)
               : k == 3 ? TPL(strf::unsafe_transcode, DCS_, src, end, d.begin(), d.end(), &r, flags)
               : k == 4 ? strf::unsafe_decode_encode(scs, dcs, src, end, d.begin(), d.end(), &r, flags)
               : TPL(strf::unsafe_decode_encode, DCS_, src, end, d.begin(), d.end(), &r, flags);
        sym_check((int)q.stop_reason == e.reason, nm[k]); position(q.stale_src_ptr, q.u32dist, e, nm[k]); output([&](int i) { return d[i]; }, (int)(q.dst_ptr - d.p), e, nm[k]); notes(r, e, nm[k]);
        sym_trace((int)q.stop_reason); sym_trace(q.dst_ptr - d.p);
    }
    for (int k = 0; k < 3; ++k) if (routes & (64 << k)) {    // to a destination: space before the first recycle, surplus, failure
        static const char* nm[] = {"transcode to a destination", "decode_encode to a destination", "unsafe_transcode to a destination"};
        if (k == 2 && !valid) break;
        Sink<DC_> s(room, 1, bad); KRec r;
        auto q = k == 0 ? TPL(strf::transcode, DCS_, src, end, s, &r, flags) : k == 1 ? strf::decode_encode(scs, dcs, src, end, s, &r, flags) : strf::unsafe_transcode(scs, dcs, src, end, s, &r, flags);
        bool good = s.good(); R x = bad == 0 && s.recycles ? e : full; s.finish();
        if (s.lost) sym_check(false, "nothing is written after the failure");
        if (bad != 0 && s.recycles == 1) sym_cover("flushed");
        sym_check(good == !(bad == 0 && s.recycles > 0), nm[k]);
        sym_check((int)q.stop_reason == x.reason, nm[k]); sym_check(q.ssize == x.dst, nm[k]); position(q.stale_src_ptr, q.u32dist, x, nm[k]); output([&](int i) { return s.out[i]; }, s.n, x, nm[k]); notes(r, x, nm[k]);
        sym_trace((int)q.stop_reason); sym_trace(q.ssize);
    }
    for (int k = 0; k < 4; ++k) if (routes & (512 << k)) for (int m = 0; m < 2; ++m) {
        static const char* nm[] = {"transcode_size", "decode_encode_size", "unsafe_transcode_size", "unsafe_decode_encode_size"};
        if (k >= 2 && !valid) break;
        std::ptrdiff_t lim = m ? 1 << 20 : room; const R& x = m ? full : e;
        auto q = k == 0 ? TPL(strf::transcode_size, D, src, end, lim, flags) : k == 1 ? TPL(strf::decode_encode_size, D, src, end, lim, flags) : k == 2 ? TPL(strf::unsafe_transcode_size, D, src, end, lim, flags) : TPL(strf::unsafe_decode_encode_size, D, src, end, lim, flags);
        sym_check((int)q.stop_reason == x.reason, nm[k]); sym_check(q.ssize == x.dst, nm[k]); position(q.stale_src_ptr, q.u32dist, x, nm[k]); sym_trace(q.ssize);
    }
    }
}
