// The text of an integer in a format. T and U are defined before.
#pragma once
struct Num { T v; char dg[72]; int n; bool neg; bool zero; };
struct Fmt { int base; int prec, pad0; char sign; bool showbase, upper, pupper, punct; u32 sep; bool sepvalid; int ng; int g[6]; bool rep; Align a; };
// is a separator after the digit with `left` digits to its right?
static bool sepat(const Fmt& f, int left) {
    int pos = 0; for (int i = 0; i < f.ng; ++i) { pos += f.g[i]; if (left == pos) return true; if (i + 1 == f.ng && f.rep && left > pos && (left - pos) % f.g[i] == 0) return true; }
    return false;
}
template <class X> static void expect(X& out, const Num& x, const Fmt& f) {
    X body; int zeros = 0, prec = f.prec, seps = 0; bool pre = false; char sg = 0;
    if (f.base == 10) { if (std::is_signed<T>::value) sg = x.neg ? '-' : f.sign; }
    else if (f.showbase) { pre = f.base == 8 ? !x.zero : true; if (f.base == 8 && pre && prec > 0) --prec; }
    if (f.punct && f.sepvalid) for (int i = 1; i < x.n; ++i) if (sepat(f, x.n - i)) ++seps;
    int w = x.n + seps + (sg != 0) + (pre ? f.base == 8 ? 1 : 2 : 0);
    int za = prec > x.n ? prec - x.n : 0, zb = f.pad0 > w ? f.pad0 - w : 0; zeros = za > zb ? za : zb;
    Align a = f.a; bool fillsign = sg == ' ' && a.on;   // the space is part of the fill
    if (fillsign) body.ch(a.fill); else if (sg) body.ch((unsigned char)sg);
    if (pre) { body.ch('0'); if (f.base == 16) body.ch(f.pupper ? 'X' : 'x'); if (f.base == 2) body.ch(f.pupper ? 'B' : 'b'); }
    body.ch('0', zeros);
    for (int i = 0; i < x.n; ++i) { if (i > 0 && f.punct && f.sepvalid && sepat(f, x.n - i)) body.ch(f.sep); body.ch((unsigned char)x.dg[i]); }
    if (!fillsign) { aligned(out, a, body); return; }
    // with the fill character in place of the sign, it goes before (right and centre) or stands first (left): the text is the same
    X rest; for (int i = 0; i < body.n; ++i) rest.u[i] = body.u[i]; rest.n = body.n; rest.w = body.w;
    int fc = a.width > rest.w ? a.width - rest.w : 0, l = a.al == 0 ? 0 : a.al == 1 ? fc : fc / 2;
    out.ch(a.fill, l); for (int i = 0; i < rest.n; ++i) out.u[out.n++] = rest.u[i]; out.w += rest.w; out.ch(a.fill, fc - l);
}
