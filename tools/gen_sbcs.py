#!/usr/bin/env python3
"""harness/sbcs_tables.h: byte -> code point per standard, from Python's codec tables (generated from the
   Unicode consortium's ISO8859 and Microsoft mapping files). Bytes 0x80-0x9F that the Microsoft tables leave
   unassigned map to the C1 control of the same number, as in Microsoft's WindowsBestFit tables, which is the
   reference the library names. 0 stands for unassigned (for bytes other than 0)."""
import os, codecs
names = ["ascii"] + ["iso_8859_%d" % i for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)] + ["windows_%d" % i for i in range(1250, 1259)]
out = ["// generated by tools/gen_sbcs.py from Python's codec tables", "#pragma once", "#include <cstdint>", "static const std::uint16_t sbcs_table[%d][256] = {" % len(names)]
for n in names:
    codec = n if n == "ascii" else n.replace("iso_8859_", "iso8859_") if n.startswith("iso") else n.replace("windows_", "cp")
    row = []
    for b in range(256):
        try: c = ord(bytes([b]).decode(codec))
        except UnicodeDecodeError: c = b if n.startswith("windows") and 0x80 <= b < 0xA0 else 0
        if n == "windows_1255" and b == 0xCA: c = 0x05BA   # WindowsBestFit/bestfit1255 and WHATWG; absent from CP1255.TXT
        row.append(c)
    out.append("{ // " + n + "\n" + ",\n".join(",".join("0x%04X" % c for c in row[i:i+16]) for i in range(0, 256, 16)) + "},")
out.append("};")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "sbcs_tables.h"), "w").write("\n".join(out) + "\n")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "sbcs_list.h"), "w").write("// generated by tools/gen_sbcs.py\n" + "".join("SBCS(%d, %s)\n" % (i, n) for i, n in enumerate(names)))
