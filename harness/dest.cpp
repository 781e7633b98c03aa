// Any sequence of raw output operations on every kind of destination.
// cfg: d destination kind, k operations, ls length set, cap, ops bitmask of operations
#include "device.h"
#include <strf/iterator.hpp>
#include <strf/output_buffer_functions.hpp>
using namespace uni;
#ifndef C_
#define C_ char
#endif
typedef C_ C;
typedef std::basic_string<C, std::char_traits<C>, Alloc<C>> Str;
enum { CAP = 700 };
struct Model { C full[CAP]; int n = 0;      // everything written, in order
    int cut = -1; int cap = 1 << 20; };     // array destinations: where the content ends once truncated
static const int LENS[][8] = {{0, 1, 2, 5, 63, 64, 65, 70}, {1, 3, 40, 64, 65, 130, 0, 2}, {0, 1, 2, 3, 4, 5, 6, 7}, {1, 2, 66, 3, 64, 70, 0, 5}};
static C src[400];
static int choose(int n, const char* name) { return (int)sym_concretize(sym_range(0, n - 1, name)); }
static C next(Model& m) { return src[m.n % 400]; }
// model of the array destinations: an operation that needs r units at once truncates when r do not fit, a block write truncates exactly at the end
static void put_block(Model& m, const C* p, int len, bool all_or_nothing) {
    int room = m.cap - m.n;
    if (m.cut < 0 && len > room) m.cut = all_or_nothing ? m.n : m.cap;
    for (int i = 0; i < len; ++i) { if (m.n < CAP) m.full[m.n] = p[i]; ++m.n; }
}
static void operate(strf::destination<C>& d, Model& m, const int* lens, int nl, int ops) {
    int kinds[7], nk = 0; for (int i = 0; i < 7; ++i) if (ops >> i & 1) kinds[nk++] = i;
    int op = kinds[choose(nk, "op")]; int len = op == 0 || op == 4 || op == 5 ? 1 : lens[choose(nl, "len")]; int at = m.n % 150; const C* p = src + at;
    switch (op) {
    case 0: { put_block(m, p, 1, false); strf::put<C>(d, *p); break; }
    case 1: { put_block(m, p, len, false); Heap<C> h(len); for (int i = 0; i < len; ++i) h[i] = p[i]; d.write(h.p, len); break; }
    case 2: { static C f[400]; for (int i = 0; i < len; ++i) f[i] = *p; put_block(m, f, len, false); strf::detail::write_fill<C>(d, len, *p); break; }
    case 3: { int n = len > 64 ? 64 : len; put_block(m, p, n, true); d.ensure(n); for (int i = 0; i < n; ++i) d.buffer_ptr()[i] = p[i]; d.advance(n); break; }
    case 4: { put_block(m, p, 1, false); auto it = strf::make_iterator<C>(d); *it++ = *p; sym_check(it.failed() == !d.good(), "iterator failed()"); break; }
    case 5: { d.flush(); sym_check(d.buffer_space() >= 64, "space after flush"); break; }
    case 6: { put_block(m, p, len, false); char h[400]; for (int i = 0; i < len; ++i) h[i] = (char)((p[i] & 63) + 1), p = src + at; for (int i = 0; i < len; ++i) m.full[m.n - len + i] = (C)((src[at + i] & 63) + 1); strf::detail::output_buffer_interchar_copy<C>(d, h, h + len); break; }
    }
    sym_check(d.buffer_ptr() <= d.buffer_end(), "buffer pointers ordered");
}
template <class T> static void prefix(const T* got, int n, const Model& m, const char* what) { sym_check(n <= m.n && n >= 0, what); for (int i = 0; i < n; ++i) sym_check(val(got[i]) == val(m.full[i]), what); }
template <class D, class A> static void run_device(A&& arg, Model& m, const int* lens, int nl, int K, int ops) {
    bool fin = CFG("finish", 1); Device dv; dev = &dv; dv.fail_at = choose(CFG("fails", 4) + 1, "fail_at") - 1; dv.part = choose(3, "part");
    { D d(arg); for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops);
      if (fin) { auto r = d.finish(); sym_check((long)r.count == dv.n, "reported count"); sym_check(r.success == (dv.n == m.n && !dv.failed), "reported success"); if (!r.success) sym_cover("device failure"); else sym_cover("device success"); sym_trace(r.count); sym_trace(r.success); } }
    prefix(dv.w, dv.n, m, "device content is a prefix of the output"); sym_check(dv.after == 0, "nothing is sent after a failure"); if (!dv.failed) sym_check(dv.n == m.n, "everything arrived");
}
extern "C" void sym_main() {
    int K = CFG("k", 2), dk = CFG("d", 0), ops = CFG("ops", 31), nl = CFG("nl", 8); const int* lens = LENS[CFG("ls", 0)]; static Model m; m.n = 0; m.cut = -1; m.cap = 1 << 20; alloc_no = 0; alloc_fail = -1; alloc_threw = false; live_bytes = 0;
    sym_bytes(src, 8 * sizeof(C), "text"); for (int i = 8; i < 400; ++i) src[i] = (C)(i * 7 + 3);
    if (dk == 0 || dk == 1) {
        int lo = CFG("lo", 1), S = (int)sym_concretize(sym_range(dk == 0 && lo == 0 ? 1 : lo, CFG("hi", 6), "size")); Heap<C> a(S); m.cap = dk == 0 ? S - 1 : S; bool tr; C* end; int ctor = CFG("ctor", 0);
        if (dk == 0) { auto go = [&](auto& d) { for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); if (CFG("peek", 0)) { auto r0 = d.finish(); (void)r0; } auto r = d.finish(); tr = r.truncated; end = r.ptr; };
            if (ctor) { strf::basic_cstr_destination<C> d(a.p, S); go(d); } else { strf::basic_cstr_destination<C> d(a.p, a.p + S); go(d); } }
        else { auto go = [&](auto& d) { for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); auto r = d.finish(); tr = r.truncated; end = r.ptr; };
            if (ctor) { strf::array_destination<C> d(a.p, S); go(d); } else { strf::array_destination<C> d(a.p, a.p + S); go(d); } }
        int want = m.cut < 0 ? m.n : m.cut;
        sym_check(end - a.p == want, "end pointer"); if (!CFG("peek", 0)) sym_check(tr == (want < m.n), "truncated flag"); for (int i = 0; i < want; ++i) sym_check(a[i] == m.full[i], "content is the longest prefix that fits"); if (dk == 0) sym_check(*end == C(), "terminator");
        sym_cover(tr ? "truncated" : "fits"); sym_trace(end - a.p); sym_trace(tr);
    } else if (dk == 2) {
        int room = (int)sym_concretize(sym_range(0, 3, "room")); int bad = CFG("bad", 0) ? choose(3, "bad") : -1; Sink<C, 6, CAP> s(room, CFG("extra", 0), bad); for (int k = 0; k < K; ++k) operate(s, m, lens, nl, ops); s.finish();
        if (bad < 0) sym_check(s.n == m.n, "everything arrived"); prefix(s.out, s.n, m, "content of the destination"); if (s.n < m.n) sym_cover("bad destination"); sym_trace(s.n);
    } else if (dk == 3) { strf::discarder<C> d; for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); sym_check(!d.good(), "a discarder is never good"); sym_trace(m.n); sym_cover("discarder"); }
    else if (dk >= 4 && dk <= 6) {     // strings with an allocator that may fail
        alloc_no = 0; alloc_threw = false; live_bytes = 0; alloc_fail = CFG("throwing", 0) ? choose(5, "alloc_fail") : -1; bool caught = false;
        { Str s; int init = 0; C ini[60];
        try {
            if (dk == 4) { strf::basic_string_maker<C, std::char_traits<C>, Alloc<C>> d; for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); s = d.finish(); }
            else if (dk == 5) { int init0 = CFG("init", 3); { int keep = alloc_fail; alloc_fail = -1; for (int i = 0; i < init0; ++i) { ini[i] = (C)(i + 65); s.push_back(ini[i]); } alloc_no = 0; alloc_fail = keep; } init = init0;
                int rs = CFG("reserve", 0); if (rs) { strf::basic_string_appender<C, std::char_traits<C>, Alloc<C>> d(s, 100); for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); if (CFG("finish", 1)) d.finish(); }
                else { strf::basic_string_appender<C, std::char_traits<C>, Alloc<C>> d(s); for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); if (CFG("finish", 1)) d.finish(); } }
            else { int cnt = (int)sym_concretize(sym_range(0, 3, "count")); strf::basic_sized_string_maker<C, std::char_traits<C>, Alloc<C>> d((std::size_t)(cnt == 3 ? 70 : cnt)); for (int k = 0; k < K; ++k) operate(d, m, lens, nl, ops); s = d.finish(); }
        } catch (std::bad_alloc&) { caught = true; }
        if (CFG("finish", 1)) sym_check(caught == alloc_threw, "an exception propagates");
        sym_check((int)s.size() >= init, "existing content kept"); for (int i = 0; i < init; ++i) sym_check(s[i] == ini[i], "existing content kept");
        sym_check(s.c_str()[s.size()] == C(), "string object is valid");
        prefix(s.data() + init, (int)s.size() - init, m, "appended text is a prefix of the output"); if (!alloc_threw) { sym_check((int)s.size() - init == m.n, "string has the whole output"); sym_cover("string complete"); } else sym_cover("allocation failed");
        sym_trace(s.size()); sym_trace(caught); }
        sym_check(live_bytes == 0, "nothing is leaked");
    }
#ifdef DEVICES
    else if (dk == 8) run_device<strf::narrow_cfile_writer<C, 64>>((FILE*)&m, m, lens, nl, K, ops);
    else if (dk == 9) { std::basic_streambuf<char, Tr> sb; run_device<strf::basic_streambuf_writer<C, Tr>>(sb, m, lens, nl, K, ops); }
#endif
#ifdef WDEVICES
    else if (dk == 10) run_device<strf::wide_cfile_writer>((FILE*)&m, m, lens, nl, K, ops);
#endif
}
