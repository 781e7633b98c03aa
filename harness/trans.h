// Generic checks of one transcoder against a list of expected items (used for the single-byte charsets).
#pragma once
#include "uni.h"
#include <strf/to_string.hpp>
namespace tr {
using namespace uni;
enum Kind { OK, INVALID, UNSUPPORTED };
struct It { int begin, len; Kind k; u32 cp; u32 out[4]; int outlen; };
struct List { int n = 0, len = 0; It it[64]; };
struct R { int src, dst, reason, events; };
inline R run(const List& c, int k, int room, int fl, bool sizing = false) {
    int d = 0, ev = 0;
    for (int i = k; i < c.n; ++i) {
        const It& t = c.it[i];
        if (t.k == INVALID && (fl & 2)) return {t.begin, d, 3, ev + 1};
        if (t.k == UNSUPPORTED && (fl & 4)) return {t.begin, d, 2, ev + 1};
        if (d + t.outlen > room) return {t.begin, d, 1, ev + (t.k == INVALID)};   // an invalid sequence is notified before the space check, an unsupported code point after
        ev += t.k != OK; d += t.outlen;
    }
    return {c.len, d, 0, ev};
}
struct Rec : strf::transcoding_error_notifier {
    struct E { bool inv; int cus; const char* name; const void* p; long n; u32 cp; } e[64]; int n = 0;
    void add(E x) { if (n < 64) e[n] = x; ++n; }
    void invalid_sequence(int cus, const char* name, const void* p, std::ptrdiff_t k) override { add({true, cus, name, p, (long)k, 0}); }
    void unsupported_codepoint(const char* name, unsigned cp) override { add({false, 0, name, nullptr, 0, cp}); }
};
inline bool streq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
template <class S> inline void check_events(const Rec& r, const List& c, int from_item, int count, int base, const S* src, const char* sname, const char* dname) {
    int k = base;
    for (int i = from_item; i < c.n && k < base + count; ++i) if (c.it[i].k != OK) {
        const It& t = c.it[i]; const Rec::E& e = r.e[k];
        sym_check(e.inv == (t.k == INVALID), "kind of the notification");
        if (t.k == INVALID) { sym_check(e.p == (const void*)(src + t.begin), "invalid_sequence position"); sym_check(e.n == t.len, "invalid_sequence size"); sym_check(e.cus == (int)sizeof(S), "invalid_sequence unit size"); sym_check(streq(e.name, sname), "invalid_sequence charset"); }
        else { sym_check(e.cp == t.cp, "unsupported_codepoint value"); sym_check(streq(e.name, dname), "unsupported_codepoint charset"); }
        ++k;
    }
}
// T: transcoder type; safe: use transcode, otherwise unsafe_transcode (list without INVALID)
template <class T, class S, class D> inline void check(const List& c, const S* src, int fl, int room, bool safe, const char* sname, const char* dname) {
    auto flags = static_cast<strf::transcode_flags>(fl);
    R e = run(c, 0, room, fl);
    { Heap<D> dst(room); Rec rec;
      auto r = safe ? T::transcode(src, src + c.len, dst.begin(), dst.end(), &rec, flags) : T::unsafe_transcode(src, src + c.len, dst.begin(), dst.end(), &rec, flags);
      sym_check((int)r.stop_reason == e.reason, safe ? "stop_reason" : "unsafe stop_reason"); sym_check(r.src_ptr - src == e.src, safe ? "source position" : "unsafe source position"); sym_check(r.dst_ptr - dst.p == e.dst, safe ? "destination position" : "unsafe destination position");
      int o = 0; for (int i = 0; i < c.n && o < e.dst; ++i) for (int j = 0; j < c.it[i].outlen; ++j, ++o) sym_check(val(dst[o]) == c.it[i].out[j], safe ? "output unit" : "unsafe output unit");
      sym_check(rec.n == e.events, safe ? "number of notifications" : "unsafe number of notifications"); check_events(rec, c, 0, e.events, 0, src, sname, dname);
      sym_trace(r.src_ptr - src); sym_trace(r.dst_ptr - dst.p); sym_trace((int)r.stop_reason); sym_trace(rec.n);
      if (e.reason) sym_cover(e.reason == 1 ? "no space" : e.reason == 2 ? "stop unsupported" : "stop invalid"); }
    { Heap<D> dst(room);
      auto r = safe ? T::transcode_func()(src, src + c.len, dst.begin(), dst.end(), nullptr, flags) : T::unsafe_transcode_func()(src, src + c.len, dst.begin(), dst.end(), nullptr, flags);
      sym_check((int)r.stop_reason == e.reason && r.src_ptr - src == e.src && r.dst_ptr - dst.p == e.dst, "without notifier");
      int o = 0; for (int i = 0; i < c.n && o < e.dst; ++i) for (int j = 0; j < c.it[i].outlen; ++j, ++o) sym_check(val(dst[o]) == c.it[i].out[j], "output unit without notifier"); }
    for (int k = 0; k < 2; ++k) {
        int lim = k ? 1 << 20 : room; R ez = run(c, 0, lim, fl);
        auto z = safe ? (k ? T::transcode_size_func() : T::transcode_size)(src, src + c.len, lim, flags) : (k ? T::unsafe_transcode_size_func() : T::unsafe_transcode_size)(src, src + c.len, lim, flags);
        sym_check(z.ssize == ez.dst, safe ? "transcode_size size" : "unsafe_transcode_size size"); sym_check((int)z.stop_reason == ez.reason, safe ? "transcode_size stop_reason" : "unsafe_transcode_size stop_reason"); sym_check(z.src_ptr - src == ez.src, safe ? "transcode_size position" : "unsafe_transcode_size position");
        sym_trace(z.ssize); sym_trace((int)z.stop_reason);
    }
}
}
