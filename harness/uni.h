// Independent oracle for UTF decoding/encoding (Unicode 15, chapter 3, table 3-7;
// ill-formed input: U+FFFD substitution of maximal subparts).
#pragma once
#include "sym.h"
#include <cstdlib>
namespace uni {
typedef std::uint32_t u32;
struct Step { bool ok; u32 cp; int len; };
inline Step dec8(const u32* s, int n, bool lax) {      // n >= 1 units left
    u32 b0 = s[0];
    if (b0 < 0x80) return {true, b0, 1};
    u32 lo = 0x80, hi = 0xBF; int need;
    if (b0 >= 0xC2 && b0 <= 0xDF) { need = 1; }
    else if (b0 == 0xE0) { need = 2; lo = 0xA0; }
    else if (b0 == 0xED) { need = 2; if (!lax) hi = 0x9F; }
    else if (b0 >= 0xE1 && b0 <= 0xEF) { need = 2; }
    else if (b0 == 0xF0) { need = 3; lo = 0x90; }
    else if (b0 >= 0xF1 && b0 <= 0xF3) { need = 3; }
    else if (b0 == 0xF4) { need = 3; hi = 0x8F; }
    else return {false, 0, 1};
    u32 cp = need == 1 ? b0 - 0xC0 : need == 2 ? b0 - 0xE0 : b0 - 0xF0;
    for (int i = 1; i <= need; ++i) {
        if (i >= n) return {false, 0, i};
        u32 b = s[i];
        if (b < lo || b > hi) return {false, 0, i};
        cp = cp * 64 + (b - 0x80); lo = 0x80; hi = 0xBF;
    }
    return {true, cp, need + 1};
}
inline Step dec16(const u32* s, int n, bool lax) {
    u32 a = s[0];
    if (a < 0xD800 || a > 0xDFFF) return {true, a, 1};
    if (a <= 0xDBFF && n > 1 && s[1] >= 0xDC00 && s[1] <= 0xDFFF)
        return {true, 0x10000 + (a - 0xD800) * 0x400 + (s[1] - 0xDC00), 2};
    if (lax) return {true, a, 1};
    return {false, 0, 1};
}
inline Step dec32(const u32* s, int, bool lax) {
    u32 a = s[0];
    if (a > 0x10FFFF) return {false, 0, 1};
    if (!lax && a >= 0xD800 && a <= 0xDFFF) return {false, 0, 1};
    return {true, a, 1};
}
inline Step dec(int enc, const u32* s, int n, bool lax) { return enc == 8 ? dec8(s, n, lax) : enc == 16 ? dec16(s, n, lax) : dec32(s, n, lax); }
inline int enc8(u32 c, u32* o) {
    if (c < 0x80) { o[0] = c; return 1; }
    if (c < 0x800) { o[0] = 0xC0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
    if (c < 0x10000) { o[0] = 0xE0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; }
    o[0] = 0xF0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4;
}
inline int enc16(u32 c, u32* o) {
    if (c < 0x10000) { o[0] = c; return 1; }
    o[0] = 0xD800 + (c - 0x10000) / 0x400; o[1] = 0xDC00 + (c - 0x10000) % 0x400; return 2;
}
inline int enc(int e, u32 c, u32* o) { if (e == 8) return enc8(c, o); if (e == 16) return enc16(c, o); o[0] = c; return 1; }

struct Item { int begin, len; bool ok; u32 cp; int outpos, outlen; };
enum { MAXI = 96, MAXO = 300 };
struct Conv {        // the whole conversion, with unlimited space and without stopping
    int n = 0, outn = 0, errs = 0; Item it[MAXI]; u32 out[MAXO];
};
inline void convert(Conv& c, int senc, int denc, const u32* s, int len, bool lax) {
    int p = 0; c.n = 0; c.outn = 0; c.errs = 0;
    while (p < len) {
        Step st = dec(senc, s + p, len - p, lax);
        Item& i = c.it[c.n++]; i.begin = p; i.len = st.len; i.ok = st.ok; i.cp = st.ok ? st.cp : 0xFFFD; i.outpos = c.outn;
        i.outlen = enc(denc, i.cp, c.out + c.outn); c.outn += i.outlen; p += st.len; if (!st.ok) ++c.errs;
    }
}
struct Res { int src, dst, reason, events; };   // reason: 0 completed 1 no space 3 invalid
// result of a call that starts at item k with room for `room` units; events = items notified from k on
inline Res run(const Conv& c, int len, int k, int room, bool stop) {
    int d = 0, ev = 0;
    for (int i = k; i < c.n; ++i) {
        if (!c.it[i].ok && stop) return {c.it[i].begin, d, 3, ev + 1};
        if (d + c.it[i].outlen > room) return {c.it[i].begin, d, 1, ev + (c.it[i].ok ? 0 : 1)};   // an error is notified before the space check
        if (!c.it[i].ok) ++ev;
        d += c.it[i].outlen;
    }
    return {len, d, 0, ev};
}
// Builds a source of `pat` (decimal digits, most significant first):
// 1..4 one character whose UTF-8 form has that many bytes, 9 one arbitrary code unit,
// 8 arbitrary unit that is a UTF-8 continuation byte / a surrogate / a value above 0x10FFFF or surrogate
inline int source(u32* s, int enc_, std::uint64_t pat) {
    int d[20], k = 0, n = 0; while (pat) { d[k++] = (int)(pat % 10); pat /= 10; }
    while (k--) {
        int t = d[k];
        if (t == 9) { s[n++] = (u32)sym_value(enc_, "u"); }
        else if (t == 8) { u32 v = (u32)sym_value(enc_, "u"); sym_assume(enc_ == 8 ? (v & 0xC0) == 0x80 : enc_ == 16 ? (v & 0xF800) == 0xD800 : (v > 0x10FFFF || (v & 0xFFFFF800) == 0xD800)); s[n++] = v; }
        else {
            u32 c = (u32)sym_value(32, "c");
            sym_assume(t == 1 ? c < 0x80 : t == 2 ? c >= 0x80 && c < 0x800 : t == 3 ? c >= 0x800 && c < 0x10000 && (c & 0xF800) != 0xD800 : c >= 0x10000 && c <= 0x10FFFF);
            n += enc(enc_, c, s + n);
        }
    }
    return n;
}
template <class T> struct Heap {   // exact-size heap array, so that any access outside is caught
    char* b; T* p; int n;
    explicit Heap(int n_) : b(static_cast<char*>(std::malloc(n_ > 0 ? n_ * sizeof(T) : 16))), p(reinterpret_cast<T*>(n_ > 0 ? b : b + 16)), n(n_) { }
    ~Heap() { std::free(b); }
    Heap(const Heap&) = delete;
    T* begin() { return p; } T* end() { return p + n; }
    operator T*() { return p; }
};
template <class T> inline u32 val(T v) { return sizeof(T) == 1 ? (u32)(unsigned char)v : sizeof(T) == 2 ? (u32)(std::uint16_t)v : (u32)v; }
}
