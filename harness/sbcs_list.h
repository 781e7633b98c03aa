// generated by tools/gen_sbcs.py
SBCS(0, ascii)
SBCS(1, iso_8859_1)
SBCS(2, iso_8859_2)
SBCS(3, iso_8859_3)
SBCS(4, iso_8859_4)
SBCS(5, iso_8859_5)
SBCS(6, iso_8859_6)
SBCS(7, iso_8859_7)
SBCS(8, iso_8859_8)
SBCS(9, iso_8859_9)
SBCS(10, iso_8859_10)
SBCS(11, iso_8859_11)
SBCS(12, iso_8859_13)
SBCS(13, iso_8859_14)
SBCS(14, iso_8859_15)
SBCS(15, iso_8859_16)
SBCS(16, windows_1250)
SBCS(17, windows_1251)
SBCS(18, windows_1252)
SBCS(19, windows_1253)
SBCS(20, windows_1254)
SBCS(21, windows_1255)
SBCS(22, windows_1256)
SBCS(23, windows_1257)
SBCS(24, windows_1258)
