// UTF transcoders against the oracle in uni.h.
// cfg: s,d (8/16/32), pat (see uni.h), fl (transcode_flags), mode, alt (character types)
#include "uni.h"
#include <strf/to_string.hpp>
using namespace uni;
struct Rec : strf::transcoding_error_notifier {
    struct E { int cus; const char* name; const void* p; long n; } e[64]; int n = 0; int unsupported = 0;
    void invalid_sequence(int cus, const char* name, const void* p, std::ptrdiff_t k) override { if (n < 64) e[n] = {cus, name, p, (long)k}; ++n; }
    void unsupported_codepoint(const char*, unsigned) override { ++unsupported; }
};
static bool streq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
template <class S, class D, strf::charset_id SI, strf::charset_id DI> struct Run {
    typedef strf::static_transcoder<S, D, SI, DI> T;
    static constexpr int se = sizeof(S) * 8, de = sizeof(D) * 8;
    Conv c; u32 us[128]; int len; Heap<S>* src; strf::transcode_flags fl; bool lax, stop;
    Run() : src(nullptr) {
        int f = CFG("fl", 0); fl = static_cast<strf::transcode_flags>(f); lax = f & 1; stop = f & 2;
        len = source(us, se, sym_config("pat", 9999)); src = new Heap<S>(len);
        for (int i = 0; i < len; ++i) src->p[i] = static_cast<S>(us[i]);
        convert(c, se, de, us, len, lax);
    }
    ~Run() { delete src; }
    void check_events(const Rec& r, int base, int item, int count) {
        int k = base;
        for (int i = item; i < c.n && k < base + count; ++i) if (!c.it[i].ok) {
            sym_check(r.e[k].p == (const void*)(src->p + c.it[i].begin), "invalid_sequence position");
            sym_check(r.e[k].n == c.it[i].len, "invalid_sequence size");
            sym_check(r.e[k].cus == (int)sizeof(S), "invalid_sequence code unit size");
            sym_check(streq(r.e[k].name, se == 8 ? "UTF-8" : se == 16 ? "UTF-16" : "UTF-32"), "invalid_sequence charset name"); ++k;
        }
    }
    void check_out(const D* p, int from, int n) { for (int i = 0; i < n; ++i) sym_check(val(p[i]) == c.out[from + i], "output unit"); }
    int item_at(int srcpos) { for (int i = 0; i < c.n; ++i) if (c.it[i].begin == srcpos) return i; return c.n; }
    void full() {          // C01: whole conversion with ample space
        Res e = run(c, len, 0, 1 << 20, stop);
        int extra = CFG("extra", 3); Heap<D> dst(c.outn + extra);
        for (int i = 0; i < dst.n; ++i) dst[i] = (D)0x5A;
        Rec rec; strf::transcoding_error_notifier* np = CFG("notif", 1) ? &rec : nullptr;
        auto r = T::transcode(src->begin(), src->end(), dst.begin(), dst.end(), np, fl);
        sym_check((int)r.stop_reason == e.reason, "stop_reason");
        sym_check(r.src_ptr - src->p == e.src, "source position");
        sym_check(r.dst_ptr - dst.p == e.dst, "destination position");
        check_out(dst, 0, e.dst);
        for (int i = e.dst; i < dst.n; ++i) sym_check(dst[i] == (D)0x5A, "write after the reported end");
        if (np) { sym_check(rec.n == e.events, "number of invalid_sequence notifications"); sym_check(rec.unsupported == 0, "unsupported_codepoint from UTF"); check_events(rec, 0, 0, e.events); }
        if (e.reason == 3) sym_cover("stopped"); if (c.errs) sym_cover("invalid"); if (c.errs > 1) sym_cover("invalid twice");
        sym_trace(r.src_ptr - src->p); sym_trace(r.dst_ptr - dst.p); sym_trace((int)r.stop_reason); sym_trace(rec.n);
    }
    void bounded() {       // C02: limited space, then resumption until the end
        int room = (int)sym_concretize(sym_range(0, CFG("room", 4), "room"));
        Heap<D> dst(room); Rec rec; int k = 0, pos = 0, got = 0, evs = 0, again = 0;
        for (int call = 0; call < 40; ++call) {
            int rm = call == 0 ? room : CFG("room2", 4); Heap<D>* h = call == 0 ? &dst : new Heap<D>(rm);
            Res e = run(c, len, k, rm, stop);
            auto r = T::transcode(src->p + pos, src->end(), h->begin(), h->end(), &rec, fl);
            sym_check((int)r.stop_reason == e.reason, "stop_reason with limited space");
            sym_check(r.src_ptr - src->p == e.src, "source position with limited space");
            sym_check(r.dst_ptr - h->p == e.dst, "destination position with limited space");
            check_out(*h, got, e.dst);
            evs += e.events; if (e.reason == 1 && !c.it[item_at(e.src)].ok) { ++again; sym_cover("repeated notification"); } sym_check(rec.n == evs, "notifications with limited space"); check_events(rec, evs - e.events, k, e.events);
            sym_trace(r.src_ptr - src->p); sym_trace(r.dst_ptr - h->p); sym_trace((int)r.stop_reason); sym_trace(rec.n);
            if (call) delete h;
            got += e.dst; pos = e.src; k = item_at(pos);
            if (e.reason == 1) sym_cover("no space"); if (e.reason != 1) break; if (call) sym_check(e.dst > 0, "progress");
        }
        if (!stop) { Res all = run(c, len, 0, 1 << 20, stop); sym_check(pos == len && got == c.outn && evs - again == all.events, "resumed total"); }
    }
    void size() {          // C03
        int lim = (int)sym_range(0, CFG("lim", 6), "limit");
        if (CFG("nolim", 0)) lim = 1 << 20;
        Res e = run(c, len, 0, lim, stop);
        auto z = T::transcode_size(src->begin(), src->end(), lim, fl);
        sym_check(z.ssize == e.dst, "transcode_size size"); sym_check((int)z.stop_reason == e.reason, "transcode_size stop_reason");
        sym_check(z.src_ptr - src->p == e.src, "transcode_size source position");
        auto zf = T::transcode_size_func()(src->begin(), src->end(), lim, fl); sym_check(zf.ssize == z.ssize && zf.src_ptr == z.src_ptr && zf.stop_reason == z.stop_reason, "transcode_size_func");
        int n = (int)sym_concretize((std::uint64_t)z.ssize); sym_assume(n >= 0 && n < 400);
        Heap<D> dst(n); auto r = T::transcode(src->begin(), src->end(), dst.begin(), dst.end(), nullptr, fl);
        sym_check(r.dst_ptr == dst.end(), "buffer of the computed size is filled exactly");
        if (e.reason != 1) sym_check(r.stop_reason == z.stop_reason && r.src_ptr == z.src_ptr, "buffer of the computed size is sufficient");
        if (e.reason == 1) sym_cover("limit reached");
        sym_trace(z.ssize); sym_trace((int)z.stop_reason); sym_trace(z.src_ptr - src->p);
    }
    void unsafe() {        // C04: well-formed input
        sym_assume(c.errs == 0);
        int room = (int)sym_concretize(sym_range(0, CFG("room", 4), "room"));
        Res e = run(c, len, 0, room, stop);
        { Heap<D> dst(room); Rec rec;
          auto r = T::unsafe_transcode(src->begin(), src->end(), dst.begin(), dst.end(), &rec, fl);
          sym_check((int)r.stop_reason == e.reason, "unsafe stop_reason"); sym_check(r.src_ptr - src->p == e.src, "unsafe source position");
          sym_check(r.dst_ptr - dst.p == e.dst, "unsafe destination position"); check_out(dst, 0, e.dst); sym_check(rec.n == 0 && rec.unsupported == 0, "unsafe notifications");
          sym_trace(r.src_ptr - src->p); sym_trace(r.dst_ptr - dst.p); sym_trace((int)r.stop_reason); }
        { Heap<D> dst(room); auto r = T::unsafe_transcode_func()(src->begin(), src->end(), dst.begin(), dst.end(), nullptr, fl);
          sym_check((int)r.stop_reason == e.reason && r.src_ptr - src->p == e.src && r.dst_ptr - dst.p == e.dst, "unsafe_transcode_func"); check_out(dst, 0, e.dst); }
        auto z = T::unsafe_transcode_size(src->begin(), src->end(), room, fl);
        sym_check(z.ssize == e.dst, "unsafe_transcode_size size"); sym_check((int)z.stop_reason == e.reason, "unsafe_transcode_size stop_reason");
        sym_check(z.src_ptr - src->p == e.src, "unsafe_transcode_size source position");
        auto zf = T::unsafe_transcode_size_func()(src->begin(), src->end(), room, fl); sym_check(zf.ssize == z.ssize && zf.src_ptr == z.src_ptr && zf.stop_reason == z.stop_reason, "unsafe_transcode_size_func");
        auto za = T::unsafe_transcode_size(src->begin(), src->end(), 1 << 20, fl);
        sym_check(za.ssize == c.outn && za.stop_reason == strf::transcode_stop_reason::completed && za.src_ptr == src->end(), "unsafe_transcode_size without limit");
        if (e.reason == 1) sym_cover("no space"); if (e.reason == 0) sym_cover("completed");
        sym_trace(z.ssize); sym_trace((int)z.stop_reason);
    }
    void go() { switch (CFG("mode", 0)) { case 0: full(); break; case 1: bounded(); break; case 2: size(); break; case 3: unsafe(); } }
};
template <class A, class B, class C> static void all() {
    constexpr auto u8 = strf::csid_utf8; constexpr auto u16 = strf::csid_utf16; constexpr auto u32_ = strf::csid_utf32;
    switch (CFG("s", 8) * 100 + CFG("d", 16)) {
        case 808: { Run<A, A, u8, u8> r; r.go(); break; }     case 816: { Run<A, B, u8, u16> r; r.go(); break; }     case 832: { Run<A, C, u8, u32_> r; r.go(); break; }
        case 1608: { Run<B, A, u16, u8> r; r.go(); break; }   case 1616: { Run<B, B, u16, u16> r; r.go(); break; }   case 1632: { Run<B, C, u16, u32_> r; r.go(); break; }
        case 3208: { Run<C, A, u32_, u8> r; r.go(); break; }  case 3216: { Run<C, B, u32_, u16> r; r.go(); break; }  case 3232: { Run<C, C, u32_, u32_> r; r.go(); break; }
    }
}
#ifdef ALT
extern "C" void sym_main() { all<char8_t, char16_t, wchar_t>(); }
#else
extern "C" void sym_main() { all<char, char16_t, char32_t>(); }
#endif
