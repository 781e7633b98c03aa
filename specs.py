# Per property: which harness configurations (jobs) decide it, the bounds and the reachability witnesses required.
UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,pointer-overflow,bool,enum,unreachable,return,null", "-fsanitize-trap=all"]
UTF = (8, 16, 32)
def pairs(): return [(s, d) for s in UTF for d in UTF]
# source patterns, see uni::source: 9 arbitrary unit, 8 arbitrary ill-formed-prone unit, 1-4 well-formed character with that many UTF-8 bytes
def utf_pats(s, tier, light=False):
    q = {8: [9999, 19999, 99991, 3999, 4929], 16: [9999, 1999, 2394919], 32: [999, 2394919]}[s]
    if light: q = {8: [9999, 39, 4929], 16: [9999, 2394], 32: [999, 23941]}[s]
    t = {8: [99999, 1234999, 9994321, 11111111119991, 8989], 16: [99999, 9432199, 11111111119991], 32: [9999, 99432199, 11111111119991]}[s]
    if tier == "thorough": t = t + {8: [99999921], 16: [9999999], 32: [99999]}[s] if not light else t
    return q + t if tier == "thorough" else q
def utf_jobs(mode, tier, fls, extra=None, light=False):
    out = []
    for s, d in pairs():
        for fl in fls:
            for pat in utf_pats(s, tier, light):
                cfg = dict(s=s, d=d, fl=fl, pat=pat, mode=mode); cfg.update(extra or {}); out.append(dict(h="utf", cfg=cfg, cost=len(str(pat)) * (9 - s / 8), samples=3))
    alt = [(8, 16), (16, 32), (32, 8), (32, 16), (8, 32), (32, 32)]
    for s, d in alt:
        for fl in fls:
            cfg = dict(s=s, d=d, fl=fl, pat=1999 if s != 32 else 999, mode=mode); cfg.update(extra or {}); out.append(dict(h="utf", cfg=cfg, flags=["-DALT"], samples=3))
    return out
UTFB = "UTF-8/16/32 to UTF-8/16/32 (9 pairs; char/char16_t/char32_t, and char8_t/wchar_t for six pairs), every flag combination of lax-surrogates and stop-on-invalid; source: "
PATB = "quick: every string of 4 arbitrary units (3 for UTF-32) and the patterns of utf_pats() (arbitrary units mixed with arbitrary well-formed characters of each length, up to 13 units); thorough: up to 6 arbitrary UTF-8 units, 7 UTF-16, 5 UTF-32, patterns up to 15 characters. Longer inputs are outside the bound."
SPECS = {}
def spec(p, jobs, bounds, covers, **kw): SPECS[p] = dict(jobs=jobs, bounds=bounds, covers=covers, **kw)
spec("C01", lambda t: utf_jobs(0, t, (0, 1, 2, 3)) + [dict(h="utf", cfg=dict(s=s, d=d, fl=0, pat=9999 if s < 32 else 999, mode=0, notif=0, extra=0)) for s, d in pairs()],
     UTFB + PATB + " Destination with space for everything.", {"utf": ["stopped", "invalid", "invalid twice"]})
spec("C02", lambda t: utf_jobs(1, t, (0, 1, 2, 3), dict(room=5 if t == "quick" else 8), light=True),
     UTFB + PATB + " First call with every room 0..5 (thorough 0..8) units, then calls with 4 units until the end.", {"utf": ["no space", "repeated notification"]})
spec("C03", lambda t: utf_jobs(2, t, (0, 1, 2, 3), dict(lim=6 if t == "quick" else 9), light=True) + utf_jobs(2, t, (0, 2), dict(nolim=1), light=True),
     UTFB + PATB + " Symbolic limit 0..6 (thorough 0..9), and no limit.", {"utf": ["limit reached"]})
spec("C04", lambda t: utf_jobs(3, t, (0, 1, 2, 3), dict(room=5 if t == "quick" else 8)),
     UTFB + PATB + " Restricted by assumption to well-formed input; every room/limit 0..5 (thorough 0..8) and no limit.", {"utf": ["no space", "completed"]})
def c06(t):
    out = []
    for cs in range(25):
        out += [dict(h="sbcs", cfg=dict(cs=cs, mode=0)), dict(h="sbcs", cfg=dict(cs=cs, mode=1))]
        for fl in (0, 2): out += [dict(h="sbcs", cfg=dict(cs=cs, mode=m, n=2 if t == "quick" else 3, fl=fl)) for m in (2, 3)]
        for fl in range(8): out.append(dict(h="sbcs", cfg=dict(cs=cs, mode=4, n=1 if t == "quick" and fl not in (0, 6) else 2, fl=fl), cost=9))
    return out
spec("C06", c06, "All 25 single-byte charsets (tables from the Python codecs; undefined bytes 0x80-0x9F of the Windows charsets map to C1 controls, windows-1255 0xCA to U+05BA): every byte; every 32-bit value through validate, encode_char, encoded_char_size; to UTF-32 and to itself, every string of 2 bytes (thorough 3); from UTF-32, every one value with all 8 flag sets and every two values with flags 0 and 6 (thorough: two values with all); every room and size limit 0..n+1.", {"sbcs": ["unassigned byte", "representable", "not representable", "invalid byte", "unsupported", "invalid code point", "U+FFFD", "no space", "stop invalid", "stop unsupported"]})
def c05(t):
    out = []
    for fl in ([], ["-DALT"]):
        for s in UTF:
            out += [dict(h="cps", cfg=dict(s=s, mode=0), flags=fl), dict(h="cps", cfg=dict(s=s, mode=1), flags=fl)]
            for k in (0, 1): out.append(dict(h="cps", cfg=dict(s=s, mode=2, k=k, extra=0 if k else 3, count=12 if t == "quick" else 30), flags=fl, cost=5))
            out.append(dict(h="cps", cfg=dict(s=s, mode=2, k=0, bad=1, count=12), flags=fl, cost=5))
    return out
spec("C05", c05, "UTF-8 (char, char8_t), UTF-16, UTF-32 (char32_t, wchar_t): every 32-bit value through validate, encoded_char_size, encode_char, from_u32, to_u32 and every code unit through decode_unit; encode_fill of every 32-bit value with counts -1..12 (thorough 30), every initial space 0..9 and chunks of 8 or 11 units, and a destination that fails. The single-byte charsets are covered by C06.", {"cps": ["scalar", "not a scalar", "several chunks", "bad destination"]})
def c08(t):
    out = []
    for s in UTF:
        for pat in utf_pats(s, t): out.append(dict(h="cps", cfg=dict(s=s, mode=3, pat=pat), cost=len(str(pat)))); out.append(dict(h="cps", cfg=dict(s=s, mode=3, pat=pat, inf=1)))
        out.append(dict(h="cps", cfg=dict(s=s, mode=3, pat=999), flags=["-DALT"]))
    return out
spec("C08", c08, "count_codepoints and count_codepoints_fast of UTF-8, UTF-16 and UTF-32; every maximum 0..n+1 and the largest. " + PATB + " (Single-byte charsets: C06.)", {"cps": ["valid", "invalid", "maximum reached"]})
def c20(t):
    hard = dict(time=120 if t == "quick" else 1500, query_ms=25000 if t == "quick" else 400000, cost=9); out = []
    for o in range(31):
        if o in (28,): out += [dict(h="width", cfg=dict(op=28, d=d), flags=UBSAN) for d in range(12)]; continue
        out.append(dict(h="width", cfg=dict(op=o), flags=[] if o == 16 else UBSAN, **(hard if o in (13, 14, 15, 16, 17, 26, 27, 29, 30) else {})))
        if o in (13, 14, 15, 16, 17): out.append(dict(h="width", cfg=dict(op=o, small=1), flags=[] if o == 16 else UBSAN, **hard))
    return out
spec("C20", c20,
     "Every pair of 32-bit widths and every width with every int16/uint16/int32/uint32/int64/uint64 operand through constructors, sat_cast, sat_add, sat_sub, sat_mul, compare, comparison operators, +, -, * and rounding: no bound but the operand types. Division: every pair of operands; halves round towards zero and products/quotients truncate towards zero, as the tests pin.", {"width": ["saturated"]})
DEV = ["-DDEVICES"]
# whole print expressions through a public entry point, see harness/entry.cpp
TYPES = (("char", "to_string"), ("char8_t", "to_u8string"), ("char16_t", "to_u16string"), ("char32_t", "to_u32string"), ("wchar_t", "to_wstring"))
def en(d, c="char", flags=(), **cfg): return dict(h="entry", cfg=cfg, flags=[f"-DD_={d}", f"-DC_={c}", *flags], cost=4, samples=3)
def c10(t):
    out = []
    for d in (0, 1):
        for fl in ([], ["-DC_=char16_t"]):
            out += [dict(h="dest", cfg=dict(d=d, k=2, ls=0, ops=31, lo=0, hi=6), flags=fl, cost=5), dict(h="dest", cfg=dict(d=d, k=2, ls=1, ops=31, lo=64, hi=68, ctor=1), flags=fl, cost=5), dict(h="dest", cfg=dict(d=d, k=3, ls=3, nl=3 if t == "quick" else 6, ops=11, lo=1, hi=4), flags=fl, cost=9), dict(h="dest", cfg=dict(d=d, k=2, ls=1, ops=64 + 3, lo=1, hi=3), flags=fl)]
        out.append(dict(h="dest", cfg=dict(d=d, k=2, ls=2, ops=15, lo=0, hi=9, ctor=1), cost=5))
        out += [en(d, c, e=e) for c, _ in TYPES for e in (0, 1, 2)]
    return out
spec("C10", c10, "basic_cstr_destination and array_destination of char and char16_t, sizes 0/1..6 and 64..68 (thorough more), every sequence of 2 operations (put, block write, fill, ensure+fill, iterator, widening copy) with lengths from {0..7,40,63..65,70,130} and of 3 with lengths {1,2,66}; contents symbolic. Whole print expressions (symbolic text of 0..2 units, symbolic hexadecimal number of 2 digits, symbolic character; 15 forms: plain, line, tr, trline, with facets by with() and in the argument list, without arguments) through every overload of to() and to_range() for the five character types, sizes 1..9.", {"dest": ["truncated", "fits"], "entry": ["truncated", "fits"]})
def c12(t):
    out = []
    for d, fl in ((8, DEV), (9, DEV), (10, ["-DWDEVICES", "-DC_=wchar_t"])):
        for fin in (1, 0): out += [dict(h="dest", cfg=dict(d=d, k=2, ls=1, nl=6, ops=63, fails=4, finish=fin), flags=fl, cost=5), dict(h="dest", cfg=dict(d=d, k=3 if t == "quick" else 4, ls=3, nl=3, ops=11, fails=4, finish=fin), flags=fl, cost=9)]
    return out + [en(5), en(5, "char8_t"), en(6, "wchar_t"), en(7), en(7, e=1)]
spec("C12", c12, "narrow_cfile_writer, wide_cfile_writer and basic_streambuf_writer over stand-ins for fwrite, fputwc and sputn that accept 0, 1 or all but one element of any one of the first 4 calls; every sequence of 2 operations with lengths {0..3,40,64,65,130} and of 3 (thorough 4) with {1,2,66}; with and without finish(). Whole print expressions (see C10) through to(FILE*), wto(FILE*), to(streambuf&) and to(streambuf*).", {"dest": ["device failure", "device success"], "entry": ["device failure", "device success"]})
def c25(t):
    out = []
    for fl in ([], ["-DC_=char32_t"]):
        for ex in (0, 3): out += [dict(h="dest", cfg=dict(d=2, k=2, ls=0, ops=127, extra=ex), flags=fl, cost=5), dict(h="dest", cfg=dict(d=2, k=3 if t == "quick" else 4, ls=3, nl=3, ops=31, extra=ex), flags=fl, cost=9)]
        out += [dict(h="dest", cfg=dict(d=2, k=2, ls=1, ops=127, bad=1), flags=fl), dict(h="dest", cfg=dict(d=3, k=2, ls=1, ops=127), flags=fl)]
    return out
spec("C25", c25, "Every sequence of 2 operations (put, block write, fill, ensure, iterator, flush, widening copy) with lengths from {0..5,40,63,64,65,70,130} and of 3 (thorough 4) with {1,2,66}, on a destination with every initial space 0..3 and chunks of 64 or 67 units, one that fails after 0..2 recycles, and the discarder.", {"dest": ["bad destination", "discarder"]})
def c11(t):
    out = []
    for fl in ([], ["-DC_=char16_t"]):
        for d, ex in ((4, {}), (5, {}), (5, dict(init=40)), (5, dict(reserve=1)), (5, dict(finish=0)), (6, {})):
            for th in (0, 1): out.append(dict(h="dest", cfg=dict(d=d, k=2, ls=1, nl=6, ops=31 if th else 63, throwing=th, **ex), flags=fl, cost=5))
            if not fl: out.append(dict(h="dest", cfg=dict(d=d, k=3, ls=3, nl=3, ops=11, throwing=1, **ex), flags=fl, cost=9))
    for th in (0, 1, 2): out += [en(d, "char", ["-DOWNALLOC"], throwing=th, init=3) for d in (2, 3, 4)] + [en(d, "char16_t", ["-DOWNALLOC"], throwing=th, init=20) for d in (3, 4)]
    out += [en(2, c, ["-DTOSTR_=" + f], throwing=th) for c, f in TYPES for th in (0, 2)]
    return out
spec("C11", c11, "basic_string_maker, basic_string_appender (empty and non-empty string, with and without reservation, with and without finish()) and basic_sized_string_maker of char and char16_t with an allocator that fails at any of its first 5 allocations; every sequence of 2 operations with lengths {0..3,40,64,65,130} and of 3 with {1,2,66}. Whole print expressions (see C10) through to_basic_string, to_string and its four siblings, append and assign, with 15 ways to choose the reservation (none, given, calculated, and every change from one to another), with an allocation that fails or an argument that throws.", {"dest": ["string complete", "allocation failed"], "entry": ["string complete", "exception"]})
CSINFO = {"utf8": ("utf8_t", 8, "char"), "utf16": ("utf16_t", 16, "char16_t"), "utf32": ("utf32_t", 32, "char32_t")}
for i, nme in ((0, "ascii"), (1, "iso_8859_1"), (3, "iso_8859_3"), (6, "iso_8859_6"), (7, "iso_8859_7"), (14, "iso_8859_15"), (18, "windows_1252"), (19, "windows_1253"), (24, "windows_1258")): CSINFO[nme] = (nme + "_t", 1000 + i, "char")
def pv(s, d, sc=None, dc=None):
    S, D = CSINFO[s], CSINFO[d]
    return ["-DSCS_=strf::" + S[0], "-DDCS_=strf::" + D[0], "-DSE_=%d" % S[1], "-DDE_=%d" % D[1], "-DSC_=" + (sc or S[2]), "-DDC_=" + (dc or D[2])]
def sj(k, s="utf8", d=None, flags=(), sc=None, dc=None, **cfg):
    cost = cfg.pop("cost", 3)
    return dict(h="str", cfg=cfg, flags=["-DKK_=%d" % k] + pv(s, d or s, sc, dc) + list(flags), cost=cost)
PO = ["-DPOL_=%d" % i for i in range(4)]; ALN = ["-DAL_=1"]; PRE_ = ["-DPR_=1"]; SXD = lambda x, d: ["-DSX_=%d" % x, "-DDX_=%d" % d]; WCF = lambda k: ["-DWC_=%d" % k]
# string conversions: source charset, destination charset, policy, explicit (1) or type-erased (2) source charset, type-erased destination facet, unit types
STRC = [("utf8", "utf16", 1, 0, 0), ("utf16", "utf8", 2, 0, 0), ("utf16", "utf8", 3, 0, 0), ("utf8", "utf32", 1, 0, 1), ("utf32", "utf16", 2, 2, 0), ("utf16", "iso_8859_3", 1, 0, 0), ("utf8", "windows_1252", 1, 1, 0), ("windows_1252", "utf8", 2, 1, 0), ("iso_8859_3", "utf8", 1, 2, 1), ("iso_8859_7", "windows_1253", 1, 2, 0), ("iso_8859_3", "utf16", 3, 1, 0),
        ("utf8", "utf8", 1, 0, 0), ("utf8", "utf8", 2, 0, 0), ("utf8", "utf8", 1, 2, 1), ("utf8", "utf8", 3, 2, 1), ("utf16", "utf16", 2, 1, 1), ("utf16", "utf16", 1, 2, 1), ("utf32", "iso_8859_6", 2, 0, 1), ("iso_8859_6", "utf32", 1, 1, 0)]
def strc(i, *a, **cfg):
    s, d, pol, sx, dx = STRC[i]; fl = PO[pol:pol + 1] + SXD(sx, dx)
    for x in a: fl = fl + x
    return sj(1, s, d, flags=fl, **cfg)
def strpats(i, q=True):
    s, d = STRC[i][:2]; e = CSINFO[s][1]; sb = CSINFO[d][1] >= 1000 and e < 1000
    if e >= 1000: return [99, 7599] + ([] if q else [9999, 77999])
    if sb: return {8: [99, 739], 16: [99, 7299], 32: [9, 792]}[e] + ([] if q else {8: [1739], 16: [999], 32: [7992]}[e])
    return {8: [999, 7299, 839], 16: [999, 72992], 32: [99, 7992]}[e] + ([] if q else {8: [99999, 7777299], 16: [9999, 7777299], 32: [999, 777792]}[e])
# strings, characters and booleans for C15 (alignment), C16 (measuring) and C17 (chunking)
def textjobs(t, what, q, **cfg):
    out = []; A = ALN; w = WCF
    for s, c in (("utf8", None), ("utf16", None), ("utf32", None), ("utf8", "char8_t")):
        if what != 8:
            for k in (1, 3): out.append(sj(0, s, sc=c, dc=c, flags=w(k), what=what, pat=99, hold=1, **cfg))
            out.append(sj(0, s, sc=c, dc=c, flags=w(0), what=what, pat=566, hold=0, **cfg)); out.append(sj(1, s, sc=c, dc=c, flags=w(3) + PO[:1] + PRE_, what=what, pat=29, hold=2, **cfg))
            out += [sj(2, s, sc=c, dc=c, what=what, **cfg), sj(3, s, sc=c, dc=c, what=what, clo=-1, chi=6, big=75, **cfg)]
            if s != "utf32": out += [sj(4, s, sc=c, dc=c, what=what, **cfg), sj(5, s, sc=c, dc=c, what=what, clo=-1, chi=4, big=40, **cfg)]
            out.append(sj(6, s, sc=c, dc=c, what=what, **cfg))
        al = dict(cfg); 
        if what != 8: al.update(aligns=1, wlo=-1, whi=2)
        if c: al.update(aligns=1)
        for k in (1, 3) if not c else (3,): out.append(sj(1, s, sc=c, dc=c, flags=w(k) + PO[:1] + A, what=what, pat=99 if what == 8 else 9, hold=2, **al)); out.append(sj(1, s, sc=c, dc=c, flags=w(k) + PO[:1] + A + PRE_, what=what, pat=29, hold=0, **al))
        out.append(sj(1, s, sc=c, dc=c, flags=w(0) + PO[:1] + A, what=what, pat=566, hold=0, **al))
        out += [sj(2, s, sc=c, dc=c, flags=A, what=what, **al), sj(3, s, sc=c, dc=c, flags=A, what=what, clo=-1, chi=3, **al), sj(6, s, sc=c, dc=c, flags=A, what=what, **al)]
        if s != "utf32": out += [sj(4, s, sc=c, dc=c, flags=A, what=what, **al), sj(5, s, sc=c, dc=c, flags=A, what=what, clo=-1, chi=3, **al)]
    for i in (0, 2, 5, 6, 8, 13, 16, 18) if q else range(len(STRC)):
        pt = 9 if STRC[i][0] == "utf32" or STRC[i][1][:3] in ("iso", "win") else 29; al = dict(cfg)
        if what != 8: al.update(aligns=1, wlo=-1, whi=2)
        if what != 8: out += [strc(i, w(3), what=what, pat=pt, hold=2, **cfg), strc(i, w(1), PRE_, what=what, pat=pt, hold=2, **cfg)]
        out += [strc(i, w(3), A, what=what, pat=pt, hold=2, **al), strc(i, w(3), A, PRE_, what=what, pat=pt, hold=2, plo=1, phi=2, **al)]
    for x in ("iso_8859_3",): out += [sj(k, x, flags=A, what=what, aligns=2 if what == 8 else 1, wlo=-1, whi=2, **cfg) for k in (2, 3, 4, 5)]
    return out
INTTYPES = ["signed char", "short", "int", "long", "long long", "unsigned char", "unsigned short", "unsigned", "unsigned long", "unsigned long long"]
def ij(k, t="int", b=10, c="char", flags=(), **cfg):
    cost = cfg.pop("cost", 3)
    return dict(h="int", cfg=cfg, flags=["-DKK_=%d" % k, "-DTT_=" + t, "-DBB_=%d" % b, "-DCC_=" + c] + list(flags), cost=cost)
# sequences of format functions on integers, see harness/chain_int.cpp
def chi(t, first=range(12)): return [dict(h="chain_int", cfg=dict(k=2, first=i, what=8), cost=3) for i in first] + ([dict(h="chain_int", cfg=dict(k=3, first=i, kinds=0, what=8), cost=60, time=500) for i in first] if t == "thorough" else [])
CHB = " Every sequence of three format functions (thorough four; fmt, hex, dec, oct, bin, pad0, punct, left, right, center, then the member functions and operators, on rvalues, const and non-const lvalues, with every intermediate type) on 1232..1239, -1240 and 0."
def c13(t):
    q = t == "quick"; out = []
    for x in INTTYPES:
        out.append(ij(0, x, what=8))
        for c in ("char", "char16_t"): out.append(ij(0, x, c=c, what=8))
        if q and x in ("long long", "unsigned long long"): continue
        for b in (16, 8, 2): out.append(ij(2, x, b, what=8, bases=1, lc=1))
        out.append(ij(2, x, 10, what=8, signs=1))
    for x in ("signed char", "int", "unsigned long") if q else INTTYPES:
        for b in (16, 8, 2, 10): out.append(ij(3, x, b, what=8, bases=1, signs=1, lc=1, precs=6, pads=4, cost=6))
        for d, b in ((1, 16), (2, 8), (3, 2), (0, 10), (4, 10)): out.append(ij(5, x, b, what=8, bases=1, signs=1, lc=1, precs=4 if q else 6, pads=3 if q else 4, dynbase=d))
    for c in ("char", "char32_t"): out += [ij(2, "long", b, c, what=8, bases=1, lc=2, signs=1) for b in (16, 8, 2, 10)] + [ij(6, "unsigned long", 16, c, what=8, lc=1)]
    return out
spec("C13", lambda t: c13(t) + chi(t), "Every value of each of the ten integer types (digit counts enumerated, digits symbolic) to char and char16_t (some to char32_t): default, dec with the three sign options, hex, oct, bin with and without prefix in both letter cases, precisions {0,1,3,7,12,25} with pad0 {0,2,9,23}, base(n) for n in {10,16,8,2,7}; void pointers. Grouping, alignment and chunking: C14, C15, C17." + CHB, {"chain_int": ["aligned", "not aligned"], "int": ["negative", "not negative"]})
def c14(t):
    q = t == "quick"; out = [dict(h="group", cfg=dict(mode=0, k=1, dmax=70)), dict(h="group", cfg=dict(mode=0, k=2, gmax=5 if q else 9, dmax=40), cost=9), dict(h="group", cfg=dict(mode=0, k=3, gmax=3 if q else 4), cost=9), dict(h="group", cfg=dict(mode=0, k=6, gmax=1 if q else 2, dmax=24)),
        dict(h="group", cfg=dict(mode=1, n=4 if q else 6), cost=9), dict(h="group", cfg=dict(mode=2)), dict(h="group", cfg=dict(mode=2, nd=1, nt=4)), dict(h="group", cfg=dict(mode=3, nd=1, ng=2 if q else 3), cost=9)] + [dict(h="group", cfg=dict(mode=m)) for m in (4, 5, 6, 7)]
    for x in ("int", "unsigned long") if q else INTTYPES:
        for b in (16, 8, 2, 10):
            out.append(ij(4, x, b, what=8, bases=1, signs=1, seps=6, grp=2 if b == 2 else 3, gmax=2 if b == 2 else 3, lon=9 if b == 2 and q else 1, hin=36 if b == 2 and q else 64, cost=9))
    for c in ("char16_t", "char32_t"): out += [ij(4, "int", b, c, what=8, bases=1, signs=1, seps=6, grp=2, gmax=3) for b in (16, 8, 10)]
    for x in ("short", "int"): out += [ij(4, x, b, what=8, bases=1, signs=1, seps=2, grp=1, precs=5, pads=4) for b in (16, 8, 10)]
    out += [ij(4, "unsigned long long", 10, what=8, grp=6, gmax=2, cost=5), ij(4, "unsigned long long", 10, what=8, grp=2, gmax=7, lon=14, cost=5)]
    out += [ij(5, "int", b, what=8, punct=1, bases=1, signs=1, seps=3, grp=2, gmax=3, precs=2, pads=2, dynbase=d) for d, b in ((1, 16), (2, 8), (0, 10))] + [ij(5, "unsigned char", 2, what=8, punct=1, bases=1, seps=3, grp=2, gmax=3, dynbase=3)]
    return out
spec("C14", lambda t: c14(t) + chi(t), "Printing: every value of int and unsigned long (thorough: all types) in every base with every grouping of up to 3 groups of 1..3 digits, repeated or not (6 groups of 1..2, 2 groups of up to 7), separators: every printable ASCII one, U+00B7, U+2009, U+1F600, surrogate and above U+10FFFF (no separator can be written). Objects: groupings of up to 1 group of 1..31, 2 of 1..5, 3 of 1..3, 6 of 1 (thorough more) built from lists, strings and the creator, numbers of 1..40/70 digits; every Windows grouping string of up to 4 (thorough 6) characters; make_numpunct and locale_numpunct with every decimal point of up to 4 bytes and separator of up to 4 in UTF-8, ISO-8859-1, -3, -15 and unknown encodings, every grouping string of up to 2 (thorough 3) bytes; 287 predefined locales against glibc's definitions. Floating-point: C21." + CHB, {"chain_int": ["aligned", "not aligned"], "int": ["separators"], "group": ["separators", "malformed", "separator", "refused", "locales", "facets", "utf-16"]})
def c15(t):
    q = t == "quick"; out = []
    for x in ("signed char", "int", "unsigned long") if q else INTTYPES: out += [ij(1, x, what=8, aligns=a, whi=5 if q else 40) for a in (1, 2)]
    for c in ("char", "char16_t"):
        for b in (16, 8, 2, 10):
            out.append(ij(2, "int", b, c, what=8, aligns=2, bases=1, signs=1))
            out.append(ij(3, "short", b, c, what=8, aligns=2, bases=1, signs=1, precs=3, pads=2))
            out.append(ij(4, "short", b, c, what=8, aligns=2, bases=1, signs=1, seps=3))
            out.append(ij(5, "signed char", b, c, what=8, aligns=2, bases=1, signs=1, dynbase={16: 1, 8: 2, 2: 3, 10: 0}[b]))
        out.append(ij(6, "unsigned long", 16, c, what=8, aligns=2, hin=5))
    out += textjobs(t, 8, q)
    return out
spec("C15", lambda t: c15(t) + chi(t), "Integers: every value of the types listed under C13-C14 with every alignment, fill (space, every printable ASCII, a character of several code units), width from 2 below to 5 above (thorough 40) the own width, and 0. Strings (8 conversions and same charset), characters, char32_t, repeated characters and booleans as in C24, with up to 3 arbitrary units, 3 alignments, 3 fills, widths -1..+2 and precisions 0..3." + CHB, {"chain_int": ["aligned", "not aligned"], "int": ["not negative"]})
def c16(t):
    q = t == "quick"; out = []
    for c in ("char", "char16_t"):
        for x in INTTYPES: out.append(ij(0, x, c=c, what=7 if 0 else 3))
        for b in (16, 8, 2, 10):
            for x in ("int",) if q else INTTYPES:
                out.append(ij(2, x, b, c, what=3, bases=1, signs=1)); out.append(ij(3, x, b, c, what=3, bases=1, signs=1, precs=5, pads=3))
            out.append(ij(4, "short", b, c, what=3, bases=1, signs=1, seps=6, grp=2, gmax=3, precs=2)); out.append(ij(2, "short", b, c, what=3, aligns=2, bases=1, signs=1)); out.append(ij(5, "short", b, c, what=3, aligns=0, bases=1, signs=1, precs=3, punct=1, seps=3, dynbase={16: 1, 8: 2, 2: 3, 10: 0}[b]))
            out.append(ij(4, "signed char", b, c, what=3, aligns=2, bases=1, signs=1, seps=3, precs=2))
    out += textjobs(t, 3, q)
    for c in ("char", "char16_t"):
        for m in range(6) if c == "char" or not q else (4,):
            for al in (0, 1, 2) if m == 4 else (1,): out.append(dict(h="wide", cfg=dict(mode=m, al=al, whole=int(q and m in (2, 4)), top=65535 if q else 200000), flags=["-DC_=" + c], cost=40, time=300 if q else 1500))
    return out
spec("C16", c16, "Integers: measured size and width, width limits from 0 to 2 above the width. Strings (8 conversions and same charset), characters, char32_t, repeated characters and booleans as in C24, with and without alignment and precision, width calculators std (ASCII letters), fast_width, width_as_fast_u32len, width_as_u32len. Arguments of 0..65535 (thorough 200000) characters (symbolic), alone, together, in a template, in a join and in an aligned join, with every 32-bit limit, around and beyond the maximum of width_t.", {"int": ["width limit reached", "width limit not reached"], "wide": ["maximum reached", "below the maximum"]})
def c17(t):
    q = t == "quick"; out = []
    for c in ("char", "char16_t"):
        for b in (16, 8, 2, 10):
            for x in ("unsigned long",) if b != 2 or not q else ("int",): out.append(ij(2, x, b, c, what=4, bases=1, signs=1, maxroom=16, cost=9))
            out.append(ij(3, "short", b, c, what=4, bases=1, signs=1, precs=5, pads=3, maxroom=16)); out.append(ij(4, "int" if b != 2 else "short", b, c, what=4, bases=1, signs=1, seps=3, precs=2, maxroom=12, cost=9))
            out.append(ij(4, "signed char", b, c, what=4, aligns=2, bases=1, signs=1, seps=3, precs=2, maxroom=8))
    for x in ("long", "unsigned long"): out.append(ij(0, x, what=4, maxroom=24))
    out += textjobs(t, 4, q, maxroom=8)
    return out
spec("C17", c17, "Integers: first chunk of every size 0..8/16, then chunks of 64. Strings (8 conversions and same charset), characters, char32_t, repeated characters and booleans as in C24, first chunk of every size 0..8.", {"int": ["several chunks"]})
def c07(t):
    q = t == "quick"; out = []
    P = {8: [999, 71992, 739], 16: [99, 7918, 72992], 32: [99, 7992]}
    for s, d, alt in [("utf8", "windows_1252", 0), ("utf16", "iso_8859_3", 0), ("utf16", "iso_8859_7", 0), ("iso_8859_3", "utf8", 0), ("windows_1252", "utf16", 0), ("iso_8859_7", "windows_1253", 0), ("ascii", "iso_8859_6", 0), ("utf8", "utf16", 0), ("utf16", "utf8", 0), ("utf8", "utf8", 0), ("utf32", "utf8", 0), ("utf8", "utf32", 0), ("utf32", "windows_1258", 0), ("iso_8859_6", "utf32", 0), ("utf16", "utf16", 0), ("iso_8859_15", "iso_8859_15", 0), ("utf16", "utf32", 1), ("utf8", "utf16", 1), ("utf32", "utf16", 0)]:
        e = CSINFO[s][1]; sb = CSINFO[d][1] >= 1000; pats = [99, 7599] if e >= 1000 else P[e]
        if sb and e < 1000: pats = {8: [99, 7919, 739], 16: [99, 7918], 32: [9, 7991]}[e]
        if not q: pats = pats + ([9999, 75999, 7799] if e >= 1000 else {8: [1729, 77939], 16: [999, 77929], 32: [77919]}[e])
        for fl in ((0, 1, 2, 3) if not sb else (0, 1, 2, 4, 7)):
            for p in pats: out.append(dict(h="pivot", cfg=dict(pat=p, fl=fl, hi=2 if q else 4), flags=pv(s, d, *((None, "wchar_t") if alt and d == "utf32" else ("char8_t",) if alt else ())), cost=4))
    return out
spec("C07", c07, "19 pairs of charsets (UTF-8/16/32 in char, char8_t, char16_t, char32_t, wchar_t with each other and with windows-1252, -1253, -1258, ISO-8859-3, -6, -7, -15 and ASCII, with and without a direct transcoder), flag combinations; source: 1..3 arbitrary units or characters before and after up to 14 concrete letters (so that they meet the end of the 16-character pivot, 32 in the unsafe size functions), thorough more; range destination with every room from 2 (thorough 4) units too little to one too much; output stream with that space before the first recycle, 65 units after, bad after the first, the second or no recycle. Unsafe routes on well-formed input. UTF-32 to windows-1258: U+E000..U+FFFF excluded (KF1).", {"pivot": ["invalid", "unsupported", "no space", "stop invalid", "stop unsupported", "flushed"]})
def c09(t):
    q = t == "quick"; out = []; units = ["char", "char8_t", "char16_t", "char32_t", "wchar_t"]
    for a in units:
        for b in units:
            if q and "char8_t" in (a, b) and (a, b) not in (("char8_t", "char"), ("char8_t", "char32_t"), ("char16_t", "char8_t")): continue
            fl = ["-DC1_=" + a, "-DC2_=" + b, "-DMODE_=0"]
            for f in ((0, 3) if q else range(8)): out.append(dict(h="dyn", cfg=dict(found=1, fl=f, n=(1 if "32" in a or a == "wchar_t" else 2) if q else 2 if a != "char16_t" else 3), flags=fl, cost=6))
            if a.startswith("char") and "char" in (a, b): out.append(dict(h="dyn", cfg=dict(found=0), flags=fl))
        if q and a == "char8_t": continue
        for x in range(6): out.append(dict(h="dyn", cfg=dict(n=(3 if x == 3 else 1 if a == "char" else 2) if q else 3 if x == 3 else 2, plo=x, phi=x), flags=["-DC1_=" + a, "-DMODE_=1"], cost=8))
    for b in ("char16_t", "char8_t", "char"): out.append(dict(h="dyn", cfg=dict(), flags=["-DC2_=" + b, "-DMODE_=2"]))
    for s, d in (("utf8", "utf16"), ("utf16", "iso_8859_3"), ("windows_1252", "utf16"), ("utf16", "utf8"), ("utf8", "utf8"), ("iso_8859_6", "utf32"), ("utf32", "utf8")):
        for dy in (1, 2, 3) if not q or s == "utf16" else (1,):
            for fl in (0, 7): out.append(dict(h="pivot", cfg=dict(pat=99, fl=fl, hi=2), flags=pv(s, d) + ["-DDYN_=%d" % dy], cost=5))
    return out
spec("C09", c09, "Lookup: every ordered pair of the 28 charsets (UTF-8/16/32 and 25 single-byte) in the units char, char8_t, char16_t, char32_t, wchar_t (quick: char8_t in three unit pairs), by find_transcoder on type-erased, static and mixed objects and by the find_transcoder_to/from members: found exactly when the library has that transcoder; a found one is compared with the oracle on every source of 2 (quick: 1 UTF-32) units, rooms from one too little to one too much. Charset objects: every operation of all of them against the static charset for every 32-bit value, counts 0..5, rooms 0..4, strings of 3 units. A user-made charset with none, one or both of the find functions. strf::transcode and the decode_encode family on type-erased and mixed charset objects for seven pairs.", {"dyn": ["not available", "found", "valid", "invalid", "unsupported", "charset", "custom", "custom refused"], "pivot": ["invalid", "no space"]})

def c24(t):
    q = t == "quick"; out = []
    for s, c in (("utf8", None), ("utf8", "char8_t"), ("utf16", None), ("utf32", None), ("utf32", "wchar_t")):
        for p in (999, 77999): out.append(sj(0, s, sc=c, dc=c, what=8, pat=p, hold=0))
        out.append(sj(0, s, sc=c, dc=c, what=8, pat=99, hold=1))
        if not c: out += [sj(0, s, flags=["-DSV_"], what=8, pat=99, hold=h) for h in (1, 2)]
        if c != "char8_t": out.append(sj(1, s, sc=c, dc=c, flags=PO[:1] + ALN + WCF(1), what=8, pat=77999, hold=2, aligns=0, wlo=0, whi=1))
    for i in range(len(STRC)): out += [strc(i, what=8, pat=p, hold=2 * (p % 2)) for p in strpats(i, q)]
    for s, c in (("utf8", None), ("utf16", None), ("utf32", None), ("utf8", "char8_t"), ("iso_8859_3", None)):
        out.append(sj(2, s, sc=c, dc=c, what=8)); out.append(sj(3, s, sc=c, dc=c, what=8, clo=-2, chi=70 if q else 200))
        if s != "utf32": out += [sj(4, s, sc=c, dc=c, what=8), sj(5, s, sc=c, dc=c, flags=["-DDX_=1"], what=8, clo=-2, chi=8, big=70)]
        if not c or c == "char8_t": out.append(sj(6, s, sc=c, dc=c, what=8))
    out += [sj(4, "utf32", sc="wchar_t", dc="wchar_t", what=8), sj(5, "utf32", sc="wchar_t", dc="wchar_t", what=8, big=70)]
    return out
def chs(t, k=2):
    dc = ["-DDC_=char16_t"]; dy = ["-DDYN_=1"]; j = lambda fl, k, i, **c: dict(h="chain_str", cfg=dict(k=k, first=i, **c), flags=fl, cost=3 + 5 * k, time=300)
    out = [j([], k, i) for i in range(12)] + [j(dc, k, i) for i in (0, 2, 5) if k > 1]
    if t == "thorough": out += [j(dc, 2, i) for i in range(12) if i not in (0, 2, 5)] + [j(x + dy, 1, i, dynamic=1) for x in ([], dc) for i in range(12)]
    return out
CHSB = " Every sequence of three (C19: two) format functions on strings (transcode, sani, unsafe_transcode and all their other names with and without a source charset, precision, fill, alignment) to char and char16_t: conversion policy, charset, precision and alignment reported and applied, to a 4-character text with a symbolic, an invalid and a two-unit character."
spec("C24", lambda t: c24(t) + chs(t), CHSB[1:] + " " + "Strings (pointer, std::string, string_view, simple_string_view) printed as they are, formatted, with transcode, sani and unsafe_transcode, source charset implicit, explicit or type-erased, destination facet static or type-erased; 19 combinations of UTF-8/16/32, ISO-8859-3, -6, -7, windows-1252, -1253 (STRC in specs.py) plus same-charset output in char, char8_t, char16_t, char32_t, wchar_t; contents: up to 4 arbitrary units mixed with well-formed characters and up to 28 letters (thorough: 5 and more), every notification compared. Every character and every char32_t value in those charsets (excluding U+E000..U+FFFF to single-byte, KF1), repeated -2..70 (thorough 200) times; booleans in three letter cases. Alignment, measuring, chunking: C15-C17; precision: C19.", {"chain_str": ["copied", "converted", "unsafe", "not printable"], "str": ["invalid", "unsupported", "no repetition", "wide", "surrogate"]})
def wcs(cs, c=None): S = CSINFO[cs]; return ["-DE_=%d" % S[1], "-DCS_=strf::" + S[0], "-DC_=" + (c or S[2])]
def cj(cs="utf32", w=0, c=None, **cfg): cost = cfg.pop("cost", 3); return dict(h="calc", cfg=cfg, flags=wcs(cs, c) + WCF(w), cost=cost)
def c19(t):
    q = t == "quick"; out = []; N = 17; PIC, ZWJ, EXT, RI, PRP, HL, LV, CR, HV = 15, 6, 5, 14, 8, 9, 12, 2, 10   # class number + 1
    for cs in ("utf32", "utf8", "utf16"):
        out += [cj(cs, mode=0, n=2, any=1), cj(cs, mode=0, n=2, pad=31, tail=1), cj(cs, mode=0, n=2, pad=30), cj(cs, mode=0, n=1, pad=32)]
        for seq in ((PIC, ZWJ), (PIC, EXT), (RI, RI), (PRP, RI), (PRP, PIC), (HL, LV), (PIC, ZWJ, PIC), (PRP, HV), (PIC, EXT, ZWJ), (CR, 3)):
            c = 0
            for x in seq: c = c * 100 + x
            for pad in (0, 30, 31) if cs == "utf32" or not q else (30,): out.append(cj(cs, mode=0, n=1 if q else 2, cls=c, pad=pad, tail=1))
        if cs == "utf32" or not q:
            for k in range(1, N + 1): out += [cj(cs, mode=0, n=2 if q else 3, cls=k), cj(cs, mode=0, n=1 if q else 2, cls=k, pad=31), cj(cs, mode=0, n=1 if q else 2, cls=k, pad=30)]
        for al in (0, 1):
            for sani in (0, 1): out += [cj(cs, mode=4, n=1, cls=0, pad=0, align=al, sani=sani), cj(cs, mode=4, n=2, pad=30, what=1 if q else 9, align=al, sani=sani) if not q or cs == "utf32" else cj(cs, mode=4, n=1, cls=PIC * 100 + ZWJ, pad=30, align=al, sani=sani)]
            out.append(cj(cs, mode=4, n=1, pad=30, cls=RI, prec=0, what=11, align=al))
    for c in ("char8_t",): out += [cj("utf8", 0, c, mode=0, n=2), cj("utf8", 0, c, mode=2, pat=99)]
    out += [cj("utf32", 0, "wchar_t", mode=0, n=2), cj("utf32", 0, "wchar_t", mode=2, pat=9)]
    cls = range(15)
    for a in cls:
        out += [cj(mode=1, pre=a), cj(mode=1, post=a, wide=1)] + [cj(mode=1, pre=b, post=a) for b in ((4, 7, 8, 14) if q and a in (0, 1, 2, 4, 5, 13, 14, 9, 10, 11) else () if q else cls)]
    for cs in ("utf8", "utf16"): out += [cj(cs, mode=1), cj(cs, mode=1, pre=14, post=4)]
    for w in range(4):
        for cs, c in (("utf8", None), ("utf16", None), ("utf32", None), ("utf8", "char8_t"), ("utf32", "wchar_t"), ("iso_8859_3", None), ("windows_1252", None)):
            out.append(cj(cs, w, c, mode=5))
            if w or CSINFO[cs][1] < 1000:
                for p in ({"utf8": [99, 3], "utf16": [9, 4], "utf32": [9], "iso_8859_3": [99], "windows_1252": [99]} if w == 0 else {"utf8": [9999, 3929, 4499], "utf16": [999, 29491], "utf32": [999, 99499], "iso_8859_3": [999], "windows_1252": [999]})[cs]: out.append(cj(cs, w, c, mode=2, pat=p))
        for cs in ("utf8", "utf16", "utf32", "iso_8859_3"): out.append(cj(cs, w, mode=3)) if w != 0 or cs != "utf8" else None
    return out
spec("C19", lambda t: c19(t) + chs("quick", 1), CHSB[1:] + " " + "std_width_calc: every string of 2 (utf-32: 3, thorough more) grapheme cluster classes of Unicode 13 (17 kinds: UAX #29 classes with narrow/wide and emoji variants), the code points symbolic in one range of each class, after 0, 30, 31 or 32 letters (the calculator decodes 32 code points at a time), in UTF-8, -16, -32, with every 32-bit limit near the cut (all limits on short strings); every code point of Unicode (any 32-bit value in UTF-32) alone, after and before each class, and between classes; ill-formed units. fast_width, width_as_fast_u32len (well-formed input), width_as_u32len and std: up to 4 arbitrary units mixed with well-formed characters in UTF-8/16/32 and two single-byte charsets with every 32-bit limit; strings of 32770 letters with limits at the top of width_t; char_width of every unit. Printing: fmt, sani with precision (any fractional limit near the cut) and alignment. Cluster classes come from Unicode data (harness/gcb.h), rules GB3-GB13 from UAX #29.", {"calc": ["below the limit", "limit reached", "ill-formed", "cut"]})
def tj(syn=0, na=2, c=None, cs=None, dyn=0, **cfg):
    cost = cfg.pop("cost", 3); f = ["-DSYN_=%d" % syn, "-DNA_=%d" % na]
    if cs: S = CSINFO[cs]; f += ["-DCS_=strf::" + S[0], "-DE_=%d" % S[1], "-DC_=" + (c or S[2])] + (["-DDYN_"] if dyn else [])
    elif c: f.append("-DC_=" + c)
    return dict(h="tr", cfg=cfg, flags=f, cost=cost)
def c18(t):
    q = t == "quick"; out = []
    for c in ("char", "char16_t", "char32_t", "wchar_t", "char8_t"):
        for na in (0, 1, 2, 3):
            if q and na == 1 and c != "char": continue
            out += [tj(0, na, c, pat=9999 if q else 99999, cost=6), tj(0, na, c, pat=9999 if na == 2 and not q else 999, what=15, cost=6)]
            if c == "char": out += [tj(0, na, c, pat=88888 if q else 888888, what=9, cost=8), tj(0, na, c, pat=4991992 if q else 49919992)]
        out += [tj(1, 2, c, pat=999 if q else 9999, cost=4), tj(1, 0, c, pat=999), tj(1, 2, c, pat=8189, what=4, maxroom=4), tj(2, 2, c, pat=99 if q else 999, what=15, maxroom=5)]
    for p in (1777, 117782, 1577, 115556277, 16666666666666672, 1666666666667666666): out += [tj(0, 12, pat=p, what=9, cost=5), tj(1, 12, "char16_t", pat=p)] if p < 10**6 else [tj(0, 3, pat=p, what=9), tj(0, 12, "char32_t", pat=p, what=9)]
    out += [tj(0, 12, pat=1999, what=9, cost=6), tj(0, 12, pat=12121212121299, what=9, cost=6), tj(1, 3, pat=888 if q else 8888, what=4, maxroom=3), tj(3, 2, pat=999), tj(3, 0, pat=199), tj(3, 2, "char16_t", pat=819)]
    for cs, dyn in (("ascii", 0), ("windows_1252", 1), ("utf8", 1), ("utf16", 1)): out += [tj(0, 2, cs=cs, dyn=dyn, pat=999, what=11), tj(1, 1, cs=cs, dyn=dyn, pat=199)]
    return out
spec("C18", c18, "Templates of 4 (thorough 5) fully arbitrary units in char, char8_t, char16_t, char32_t, wchar_t with 0..3 arguments of different sizes (contents arbitrary), every string of 5 (thorough 6) over the alphabet { } - 0 1 x, patterns of arbitrary units around braces up to 14 units, positional references of up to 17 digits with 3 and 12 arguments; missing arguments with the notifier's template, length and position; measured size and width with every limit; strf::tr as an argument, nested (used twice), .tr and .trline with no_reserve, reserve and reserve_calc (exact size asked), strf::to_basic_string; first chunk of every size 0..8 in part of the jobs; charset facets ASCII, windows-1252, type-erased UTF-8 and UTF-16. Contents of arguments: C13, C24.", {"tr": ["escape", "comment", "positional", "missing argument", "end inside braces"]})
def rj(ek=0, fk=0, en=0, cx=0, c=None, **cfg):
    cost = cfg.pop("cost", 3); return dict(h="compose", cfg=cfg, flags=["-DEK_=%d" % ek, "-DFK_=%d" % fk, "-DEN_=%d" % en, "-DCX_=%d" % cx] + (["-DC_=" + c] if c else []), cost=cost)
def c22(t):
    q = t == "quick"; out = []
    for ek in (0, 1, 2):
        for fk in range(6):
            for cx in range(7):
                if q and cx not in (0, 1 + (ek + fk) % 6, 1 + (ek + fk + 3) % 6): continue
                en = (ek + fk + cx) % 2; big = dict(n=2 if ek else 4) if cx < 3 else dict(n=2, sep=1)
                if not q and cx == 0: big = dict(n=4 if ek else 6, sep=3 if ek == 0 else 2, len=2)
                out.append(rj(ek, fk, en, cx, (None, "char16_t", "char32_t", "wchar_t", "char8_t")[(ek + fk + cx) % 5] if not q or cx == 0 else None, what=3 + 8 if cx in (1, 2, 4) else 11, maxroom=4, **big))
    for fk in range(6):
        for en in (2, 3): out.append(rj((fk + en) % 3 if fk < 4 or en < 3 else 0, fk, en, 0, what=9, sep=1, len=1))
    return out
spec("C22", c22, "range, separated_range, fmt_range, fmt_separated_range (no format, alignment, or the elements' own format: quantity, precision, sign and digits), range and separated_range with an operation (giving formatted values or joins), entered by a minimal iterator, a container, an array and an initializer list; elements: 0..3 arbitrary characters, integers of one or two arbitrary digits and both signs, strings of 0..2 arbitrary units; separators of 0..2 arbitrary units; alone, among other arguments, in join (nested, empty), in aligned joins (arbitrary fill, 3 alignments, widths around the content), nested aligned joins, templates, and ranges of ranges (quick: a third of the combinations; thorough: all); printed text for first chunks of 0..4 or 64 units, measured size and width. Larger counts are outside the bounds.", {"compose": ["empty range", "several elements", "filled", "not filled"]})
def fj(m=0, cx=0, s1=0, c=None, c2=None, **cfg):
    cost = cfg.pop("cost", 5); al = ["-DALL_"] if cfg.pop("all", 0) else []; return dict(h="facets", cfg=cfg, flags=al + ["-DM_=%d" % m, "-DCX_=%d" % cx, "-DS1_=%d" % s1] + (["-DC_=" + c] if c else []) + (["-DC2_=" + c2] if c2 else []), cost=cost)
def c23(t):
    q = t == "quick"; out = []
    for s1 in range(11):
        for cx in range(6):
            if q and cx and (s1 + cx) % 2: continue
            out.append(fj(0, cx, s1, cost=8 if cx == 0 else 6, all=int(not q and cx == 0), **({} if q or cx == 0 else dict(room=6))))
            if not q and cx: out.append(fj(0, cx, s1, ("char16_t", "wchar_t", "char32_t", "char8_t")[(s1 + cx) % 4]))
    for s1 in range(8): out.append(fj(1, 0, s1))
    for cx in range(4): out.append(fj(2, cx, 0, c2="char16_t" if cx == 2 else None, cost=9, all=int(not q)))
    for c, d in (("char16_t", "char"), ("char32_t", "char16_t"), ("wchar_t", "char")) if not q else (("char16_t", "char"),): out += [fj(2, cx, 0, c, d if cx == 2 else None) for cx in range(3)]
    return out
spec("C23", c23, "Own facet categories and printable types (3 representative types, 2 categories, every facet with a symbolic value): 11 shapes of list elements (facets, constrained facets, packs of packs, constraints of constraints, packs within constraints, empty packs); get_facet, use_facet and the member on every pair and a third of the triples of shapes (thorough: all), flat, nested either way, merged and by reference; every pair (quick: half of the contexts for each first shape) in the lists of the printing syntax (with() once and repeated, leading arguments, copies, line), inner with() between siblings and nested, joins, aligned joins, formatted arguments, templates, ranges, measuring, reserve_calc and to_string. Overriders: 8 shapes (by print or make_printer, constrained, dont_override, in packs), every pair, in lists, inner lists, joins, ranges, templates. The library's categories: lettercase, numpunct of the four bases (symbolic separator) and a user-made width calculator, constrained to each representative type and to every other type, for integers (quick 4 types), bool, pointers, characters, strings (also transcoded), templates and ranges of them, and on the values 1e300 and 1e30f, 123456.5, 1234.5f of double and float; printed and measured. char and char16_t (thorough: all). KF2 is excluded.", {"facets": ["different facets", "overridden", "not overridden", "different"]})
def fl(mode=0, k=2, t="double", c="char", flags=(), cost=4, **cfg):
    return dict(h="float", cfg=cfg, flags=["-DMODE_=%d" % mode, "-DKK_=%d" % k, "-DTT_=" + t, "-DCC_=" + c] + list(flags), cost=cost, samples=0 if cfg.get("nhi", 4) > (15 if t == "double" else 6) else 8)
def db(t, **cfg): return dict(h="dbox", cfg=cfg, flags=["-DTT_=" + t], cost=4)
C21B = ("Finite double and float given by their shortest decimal: up to 4 (thorough: 7) arbitrary digits with 9..14 decimal exponents around the point, 6, 9 and 17 digits, and up to 3 digits near 10^+-298 (float 10^+-35) and 10^+-100; every rounding case (digit dropped below, at and above 5, runs of nines up to carry through all digits); general, fixed and scientific without precision and with precisions 0..4, 6, 8 (thorough: to 19), negative precisions; showpoint; signs; pad0; alignment (three alignments, ASCII and non-ASCII fills); lettercase; punctuation with 5 kinds of separator and decimal point (any ASCII, 2- and 4-byte, unsupported) and groupings of up to 2 (thorough: 4) groups; char, char16_t, char32_t, and windows-1252 in char; printed at once, into any room of the buffer, measured, measured up to every limit. Hexadecimal: every bit pattern of double and float with each number of significant digits, precisions 0, 1, 9 and none (thorough: 0..15), the carry and tie cases decided by the solver. Infinities and every NaN payload. The conversion of bits to the shortest decimal is assumed in those jobs and decided apart (dbox): every power of two and 3 (thorough: 7) other significands at every exponent, and 1..5 (thorough: 6) symbolic bits of the significand at some exponents: it reads back, none shorter does, the closest of the shortest is taken. Significands with more symbolic bits are outside the bound (the 128-bit products are beyond the solver). KF3 is excluded.")
def chf(t, k=2):
    out = [dict(h="chain_float", cfg=dict(k=k, first=i, hexa=h), cost=3) for i in range(14) for h in (0, 1) if not (i == 13 and not h)]
    return out + ([dict(h="chain_float", cfg=dict(k=3, first=i, hexa=h), cost=60, time=500) for i in (0, 3, 8, 13) for h in (0, 1) if not (i == 13 and not h)] if t == "thorough" and k == 2 else [])
CHFB = " Every sequence of three format functions (fmt, fixed, sci, gen, hex, pad0, punct, left, right, center, then the member functions and operators, on rvalues, const and non-const lvalues) on any d1 d2.25 and on 12.25."
def c21(t):
    q = t == "quick"; out = []; W8 = ["-DWIN1252"]
    P = lambda *ps: ps if q else tuple(sorted(set(ps) | {0, 1, 2, 3, 4, 5, 6, 9, 16}))
    # finite numbers: notation x precision x digits x exponents
    for n in (0, 1, 2):
        for ty in ("double", "float"):
            f = ty == "float"
            out.append(fl(t=ty, nota=n, nhi=4 if q else 7, en=14, emid=9, sp=1, zero=1))
            for p in P(0, 1, 3) if f else P(0, 1, 2, 4): out.append(fl(t=ty, nota=n, prec=p, nhi=4 if q else 6, en=8, emid=6, sp=1, zero=1))
            # long numbers: all digits the type has
            hi = 9 if f else 17
            for d in ((6, hi) if q else range(5, hi + 1)): out.append(fl(t=ty, nota=n, nlo=d, nhi=d, en=(d + 8) // 6 if q else d + 8, estep=6 if q else 1, emid=d + 4, sp=1, neg=0, what=9))
            for p in P(6) if q else P(6, hi - 2, hi - 1, hi, hi + 2): out.append(fl(t=ty, nota=n, prec=p, nlo=hi - 3, nhi=hi, en=4 if q else 12, emid=hi - 2 if q else hi + 4, nines=2, sp=1, neg=0, what=9))
            # the largest and the smallest numbers
            for eneg in (0, 1):
                out.append(fl(t=ty, nota=n, nhi=3, ebase=35 if f else 298, eneg=eneg, en=3 if q else 20, emid=3 if q else 10, sci=1, sp=1, neg=0, what=9))
                out.append(fl(t=ty, nota=n, prec=2, nhi=4, ebase=35 if f else 298, eneg=eneg, en=3 if q else 20, emid=3 if q else 10, sci=1, sp=1, neg=0, what=9))
            out.append(fl(t=ty, nota=n, nhi=3, ebase=100, eneg=1, en=3, emid=1, sci=1, sp=1, what=9)) if not f else None
            out.append(fl(t=ty, nota=n, prec=1, nhi=3, ebase=99, en=2, emid=1, sci=1, sp=1, what=9)) if not f else None
    # formatting
    for n in (0, 1, 2):
        for p in (-1, 1) if q else (-1, 0, 1, 2, 4):
            out.append(fl(nota=n, prec=p, nhi=2, en=3, emid=2, sp=1, signs=1, aligns=2, wn=2 if q else 3, pads=2 if q else 3, what=9, lcase=n % 3))
            out.append(fl(c="char16_t", nota=n, prec=p, nhi=2, en=4, emid=2, sp=1, zero=1, signs=1, pads=5, lc=1, what=3))
            out.append(fl(c="char16_t", nota=n, prec=p, nhi=2, en=3, emid=2, sp=1, signs=1, aligns=2, what=4, maxroom=6, neg=0))
            out.append(fl(c="char", nota=n, prec=p, nhi=3, en=6, emid=4, pads=5, what=4, maxroom=26))
    # punctuation
    for c in ("char", "char16_t", "char32_t"):
        for n in (0, 1, 2):
            out.append(fl(k=3, c=c, nota=n, nhi=4, en=12, emid=3, sp=1, zero=1, seps=5, neg=0, what=9))
            for p in (0, 2) if q else (0, 1, 2, 4, 7): out.append(fl(k=3, c=c, nota=n, prec=p, nhi=5, en=7, emid=4, sp=1, zero=1, seps=5, neg=0, what=9))
    for n in (0, 1):
        out.append(fl(k=3, nota=n, nhi=4, en=9, emid=3, grp=2 if q else 4, gmax=3, neg=0, what=9))
        for p in (0, 3) if q else (0, 1, 2, 3, 5, 7): out.append(fl(k=3, nota=n, prec=p, nhi=4, en=8, emid=3, grp=2 if q else 3, gmax=3, neg=0, what=9))
        out.append(fl(k=3, c="char16_t", nota=n, prec=8, nhi=9, nlo=6, en=3, emid=2, g0=2, sepk=2, neg=0, aligns=1, what=9))
        out.append(fl(k=3, c="char", nota=n, prec=-1, nhi=3, en=8, emid=2, g0=2, seps=3 if q else 5, signs=1, aligns=2, wn=2 if q else 3, wstep=9, pads=2 if q else 4, what=9))
        out.append(fl(k=3, c="char", nota=n, prec=-1, nhi=3, en=8, emid=2, g0=2, seps=5, neg=0, what=4, maxroom=15))
        out.append(fl(k=3, c="char16_t", nota=n, prec=6, nhi=3, en=8, emid=2, g0=2, seps=5, sp=1, neg=0, what=4, maxroom=15))
        out.append(fl(k=3, c="char", nota=n, prec=3, nhi=3, ebase=298, en=2, emid=1, sci=1, seps=5, neg=0, what=9))
    for n in (0, 1, 2):
        for p in (-1, 2): out.append(fl(k=3, flags=W8, nota=n, prec=p, nhi=4, en=9, emid=3, sp=1, zero=1, seps=4, neg=0, what=11)); out.append(fl(k=3, flags=W8, nota=n, prec=p, nhi=2 if q else 3, en=5 if q else 9, emid=2, sp=1, seps=4, aligns=2, wn=2, neg=0, what=13))
    # no formatting, and formats set as a whole
    for ty in ("double", "float"):
        for c in ("char", "char32_t"):
            out.append(fl(k=0, t=ty, c=c, nhi=5, en=16, emid=9, zero=1, lc=1)); out.append(fl(k=1, t=ty, c=c, nhi=3, en=10, emid=7, zero=1, aligns=2, what=9)); out.append(fl(k=1, t=ty, c=c, nhi=3, en=10, emid=7, aligns=1, what=4, neg=0))
    for n in (0, 1, 2):
        for p in (-1, -2, 3) if q else (-1, -2, -128, 0, 1, 3): out.append(fl(k=4, nota=n, prec=p, nhi=3, en=8, emid=5, sp=1, zero=1, signs=1, pads=3, seps=2, what=9))
        out.append(fl(k=2, nota=n, prec=-3, nhi=3, en=8, emid=5, sp=1, zero=1, what=9))
    # hexadecimal, all bits
    for ty in ("double", "float"):
        f = ty == "float"
        for cls in range(0, 7 if f else 9):
            out.append(fl(1, t=ty, cls=cls, sp=1, what=9, neg=0))
            for p in (0, 1, 4 if f else 9) if q else range(0, 8 if f else 16): out.append(fl(1, t=ty, cls=cls, prec=p, sp=1, what=9, neg=0))
        for p in (-1, 0, 2, 20): out.append(fl(1, t=ty, cls=3 if p < 2 else 0, prec=p, nzlo=0, nzhi=3 if q else 4, sp=1, signs=1, pads=3 if q else 5, lc=1, what=9 if q else 11)); out.append(fl(1, t=ty, cls=0 if p < 2 else 4, prec=p, nzlo=0, nzhi=2, sp=1, signs=1, aligns=2, pads=3, what=4 if p == -1 else 9, neg=0))
        for c in ("char", "char16_t"): out.append(fl(1, 3, ty, c, cls=2, prec=-1, nzhi=3, sp=1, seps=5, what=11)); out.append(fl(1, 3, ty, c, cls=2, prec=5, nzhi=3, sp=1, seps=5, neg=0, what=4))
        out.append(fl(1, 3, ty, flags=W8, cls=5, prec=2, nzhi=3, sp=1, seps=4, aligns=2, what=9))
        out.append(fl(1, 4, ty, cls=5, prec=-2, nzhi=3, sp=1, signs=1, pads=3, seps=2, what=9))
    # infinities and NaNs
    for ty in ("double", "float"):
        for c in ("char", "char16_t"):
            out.append(fl(2, 0, ty, c, nota=0, lc=1)); out.append(fl(2, 1, ty, c, nota=0, lc=1, aligns=2, wstep=3, what=15))
            for p in (-1, 0, 7): out.append(fl(2, 2, ty, c, nota=4, prec=p, sp=1, signs=1, lc=1, pads=4, aligns=1, wstep=3, what=9 if p else 5))
        out.append(fl(2, 3, ty, nota=4, sp=1, signs=1, pads=4, seps=5, aligns=2, what=9)); out.append(fl(2, 4, ty, nota=4, prec=-2, signs=1, pads=4, aligns=1, what=11)); out.append(fl(2, 3, ty, flags=W8, nota=4, signs=1, pads=3, seps=4, aligns=2, what=13))
    # the decimal form itself: every exponent; symbolic bits for some of them
    for ty, top in (("double", 2046), ("float", 254)):
        d = ty == "double"; out.append(db(ty, blo=2, bn=top - 2, low=0, zerom=1))
        for p in (1, 2, 4) if q else range(8): out.append(db(ty, blo=0 if p not in (0,) else 2, bn=top if p != 0 else 0, low=0, pat=p) if p else db(ty, blo=0, bn=0, low=4))
        for b in (((1023, 3), (1040, 3), (0, 1)) if d else ((127, 5), (150, 4), (100, 4), (0, 4), (200, 3))) if q else (((1023, 5), (1075, 5), (1060, 5), (900, 4), (1500, 3), (200, 3), (0, 3), (1, 3), (2046, 2)) if d else tuple((e, 6) for e in range(0, 255, 6))):
            for p in (4,) if q else (0, 1, 4, 6):
                if p or b[0] == 0 or True: out.append(db(ty, blo=b[0], low=b[1], pat=p or 7))
        out.append(db(ty, blo=1050 if d else 140, low=0, high=3 if d else 4, pat=1))
    return out
spec("C21", lambda t: c21(t) + chf(t), C21B + CHFB, {"chain_float": ["decimal", "hexadecimal"], "float": ["zero", "negative", "rounded down", "rounded up or tie", "carry through all digits", "general: scientific", "KF3", "nan", "infinity", "carry into the first digit", "subnormal", "normal", "several chunks", "width limit reached"], "dbox": ["decimal", "power of two"]})
