// Grapheme cluster break classes: first code point of each range and its class (0 other 1 CR 2 LF 3 control 4 extend 5 ZWJ 6 spacing mark 7 prepend
// 8 hangul L 9 V 10 T 11 LV/LVT 13 regional indicator 14 extended pictographic). From perl 5.38's Unicode 15 tables, without the characters added after
// Unicode 13 and with U+1734 as Unicode 13 has it; surrogates as other. tools/gen_gcb.py
#pragma once
namespace gcb {
struct R { unsigned first; unsigned char cls; };
static const R ranges[] = {
{0x0,3},{0xA,2},{0xB,3},{0xD,1},{0xE,3},{0x20,0},{0x7F,3},{0xA0,0},{0xA9,14},{0xAA,0},{0xAD,3},{0xAE,14},
{0xAF,0},{0x300,4},{0x370,0},{0x483,4},{0x48A,0},{0x591,4},{0x5BE,0},{0x5BF,4},{0x5C0,0},{0x5C1,4},{0x5C3,0},{0x5C4,4},
{0x5C6,0},{0x5C7,4},{0x5C8,0},{0x600,7},{0x606,0},{0x610,4},{0x61B,0},{0x61C,3},{0x61D,0},{0x64B,4},{0x660,0},{0x670,4},
{0x671,0},{0x6D6,4},{0x6DD,7},{0x6DE,0},{0x6DF,4},{0x6E5,0},{0x6E7,4},{0x6E9,0},{0x6EA,4},{0x6EE,0},{0x70F,7},{0x710,0},
{0x711,4},{0x712,0},{0x730,4},{0x74B,0},{0x7A6,4},{0x7B1,0},{0x7EB,4},{0x7F4,0},{0x7FD,4},{0x7FE,0},{0x816,4},{0x81A,0},
{0x81B,4},{0x824,0},{0x825,4},{0x828,0},{0x829,4},{0x82E,0},{0x859,4},{0x85C,0},{0x8D3,4},{0x8E2,7},{0x8E3,4},{0x903,6},
{0x904,0},{0x93A,4},{0x93B,6},{0x93C,4},{0x93D,0},{0x93E,6},{0x941,4},{0x949,6},{0x94D,4},{0x94E,6},{0x950,0},{0x951,4},
{0x958,0},{0x962,4},{0x964,0},{0x981,4},{0x982,6},{0x984,0},{0x9BC,4},{0x9BD,0},{0x9BE,4},{0x9BF,6},{0x9C1,4},{0x9C5,0},
{0x9C7,6},{0x9C9,0},{0x9CB,6},{0x9CD,4},{0x9CE,0},{0x9D7,4},{0x9D8,0},{0x9E2,4},{0x9E4,0},{0x9FE,4},{0x9FF,0},{0xA01,4},
{0xA03,6},{0xA04,0},{0xA3C,4},{0xA3D,0},{0xA3E,6},{0xA41,4},{0xA43,0},{0xA47,4},{0xA49,0},{0xA4B,4},{0xA4E,0},{0xA51,4},
{0xA52,0},{0xA70,4},{0xA72,0},{0xA75,4},{0xA76,0},{0xA81,4},{0xA83,6},{0xA84,0},{0xABC,4},{0xABD,0},{0xABE,6},{0xAC1,4},
{0xAC6,0},{0xAC7,4},{0xAC9,6},{0xACA,0},{0xACB,6},{0xACD,4},{0xACE,0},{0xAE2,4},{0xAE4,0},{0xAFA,4},{0xB00,0},{0xB01,4},
{0xB02,6},{0xB04,0},{0xB3C,4},{0xB3D,0},{0xB3E,4},{0xB40,6},{0xB41,4},{0xB45,0},{0xB47,6},{0xB49,0},{0xB4B,6},{0xB4D,4},
{0xB4E,0},{0xB55,4},{0xB58,0},{0xB62,4},{0xB64,0},{0xB82,4},{0xB83,0},{0xBBE,4},{0xBBF,6},{0xBC0,4},{0xBC1,6},{0xBC3,0},
{0xBC6,6},{0xBC9,0},{0xBCA,6},{0xBCD,4},{0xBCE,0},{0xBD7,4},{0xBD8,0},{0xC00,4},{0xC01,6},{0xC04,4},{0xC05,0},{0xC3E,4},
{0xC41,6},{0xC45,0},{0xC46,4},{0xC49,0},{0xC4A,4},{0xC4E,0},{0xC55,4},{0xC57,0},{0xC62,4},{0xC64,0},{0xC81,4},{0xC82,6},
{0xC84,0},{0xCBC,4},{0xCBD,0},{0xCBE,6},{0xCBF,4},{0xCC0,6},{0xCC2,4},{0xCC3,6},{0xCC5,0},{0xCC6,4},{0xCC7,6},{0xCC9,0},
{0xCCA,6},{0xCCC,4},{0xCCE,0},{0xCD5,4},{0xCD7,0},{0xCE2,4},{0xCE4,0},{0xD00,4},{0xD02,6},{0xD04,0},{0xD3B,4},{0xD3D,0},
{0xD3E,4},{0xD3F,6},{0xD41,4},{0xD45,0},{0xD46,6},{0xD49,0},{0xD4A,6},{0xD4D,4},{0xD4E,7},{0xD4F,0},{0xD57,4},{0xD58,0},
{0xD62,4},{0xD64,0},{0xD81,4},{0xD82,6},{0xD84,0},{0xDCA,4},{0xDCB,0},{0xDCF,4},{0xDD0,6},{0xDD2,4},{0xDD5,0},{0xDD6,4},
{0xDD7,0},{0xDD8,6},{0xDDF,4},{0xDE0,0},{0xDF2,6},{0xDF4,0},{0xE31,4},{0xE32,0},{0xE33,6},{0xE34,4},{0xE3B,0},{0xE47,4},
{0xE4F,0},{0xEB1,4},{0xEB2,0},{0xEB3,6},{0xEB4,4},{0xEBD,0},{0xEC8,4},{0xECE,0},{0xF18,4},{0xF1A,0},{0xF35,4},{0xF36,0},
{0xF37,4},{0xF38,0},{0xF39,4},{0xF3A,0},{0xF3E,6},{0xF40,0},{0xF71,4},{0xF7F,6},{0xF80,4},{0xF85,0},{0xF86,4},{0xF88,0},
{0xF8D,4},{0xF98,0},{0xF99,4},{0xFBD,0},{0xFC6,4},{0xFC7,0},{0x102D,4},{0x1031,6},{0x1032,4},{0x1038,0},{0x1039,4},{0x103B,6},
{0x103D,4},{0x103F,0},{0x1056,6},{0x1058,4},{0x105A,0},{0x105E,4},{0x1061,0},{0x1071,4},{0x1075,0},{0x1082,4},{0x1083,0},{0x1084,6},
{0x1085,4},{0x1087,0},{0x108D,4},{0x108E,0},{0x109D,4},{0x109E,0},{0x1100,8},{0x1160,9},{0x11A8,10},{0x1200,0},{0x135D,4},{0x1360,0},
{0x1712,4},{0x1715,0},{0x1732,4},{0x1735,0},{0x1752,4},{0x1754,0},{0x1772,4},{0x1774,0},{0x17B4,4},{0x17B6,6},{0x17B7,4},{0x17BE,6},
{0x17C6,4},{0x17C7,6},{0x17C9,4},{0x17D4,0},{0x17DD,4},{0x17DE,0},{0x180B,4},{0x180E,3},{0x180F,0},{0x1885,4},{0x1887,0},{0x18A9,4},
{0x18AA,0},{0x1920,4},{0x1923,6},{0x1927,4},{0x1929,6},{0x192C,0},{0x1930,6},{0x1932,4},{0x1933,6},{0x1939,4},{0x193C,0},{0x1A17,4},
{0x1A19,6},{0x1A1B,4},{0x1A1C,0},{0x1A55,6},{0x1A56,4},{0x1A57,6},{0x1A58,4},{0x1A5F,0},{0x1A60,4},{0x1A61,0},{0x1A62,4},{0x1A63,0},
{0x1A65,4},{0x1A6D,6},{0x1A73,4},{0x1A7D,0},{0x1A7F,4},{0x1A80,0},{0x1AB0,4},{0x1AC1,0},{0x1B00,4},{0x1B04,6},{0x1B05,0},{0x1B34,4},
{0x1B3B,6},{0x1B3C,4},{0x1B3D,6},{0x1B42,4},{0x1B43,6},{0x1B45,0},{0x1B6B,4},{0x1B74,0},{0x1B80,4},{0x1B82,6},{0x1B83,0},{0x1BA1,6},
{0x1BA2,4},{0x1BA6,6},{0x1BA8,4},{0x1BAA,6},{0x1BAB,4},{0x1BAE,0},{0x1BE6,4},{0x1BE7,6},{0x1BE8,4},{0x1BEA,6},{0x1BED,4},{0x1BEE,6},
{0x1BEF,4},{0x1BF2,6},{0x1BF4,0},{0x1C24,6},{0x1C2C,4},{0x1C34,6},{0x1C36,4},{0x1C38,0},{0x1CD0,4},{0x1CD3,0},{0x1CD4,4},{0x1CE1,6},
{0x1CE2,4},{0x1CE9,0},{0x1CED,4},{0x1CEE,0},{0x1CF4,4},{0x1CF5,0},{0x1CF7,6},{0x1CF8,4},{0x1CFA,0},{0x1DC0,4},{0x1DFA,0},{0x1DFB,4},
{0x1E00,0},{0x200B,3},{0x200C,4},{0x200D,5},{0x200E,3},{0x2010,0},{0x2028,3},{0x202F,0},{0x203C,14},{0x203D,0},{0x2049,14},{0x204A,0},
{0x2060,3},{0x2070,0},{0x20D0,4},{0x20F1,0},{0x2122,14},{0x2123,0},{0x2139,14},{0x213A,0},{0x2194,14},{0x219A,0},{0x21A9,14},{0x21AB,0},
{0x231A,14},{0x231C,0},{0x2328,14},{0x2329,0},{0x2388,14},{0x2389,0},{0x23CF,14},{0x23D0,0},{0x23E9,14},{0x23F4,0},{0x23F8,14},{0x23FB,0},
{0x24C2,14},{0x24C3,0},{0x25AA,14},{0x25AC,0},{0x25B6,14},{0x25B7,0},{0x25C0,14},{0x25C1,0},{0x25FB,14},{0x25FF,0},{0x2600,14},{0x2606,0},
{0x2607,14},{0x2613,0},{0x2614,14},{0x2686,0},{0x2690,14},{0x2706,0},{0x2708,14},{0x2713,0},{0x2714,14},{0x2715,0},{0x2716,14},{0x2717,0},
{0x271D,14},{0x271E,0},{0x2721,14},{0x2722,0},{0x2728,14},{0x2729,0},{0x2733,14},{0x2735,0},{0x2744,14},{0x2745,0},{0x2747,14},{0x2748,0},
{0x274C,14},{0x274D,0},{0x274E,14},{0x274F,0},{0x2753,14},{0x2756,0},{0x2757,14},{0x2758,0},{0x2763,14},{0x2768,0},{0x2795,14},{0x2798,0},
{0x27A1,14},{0x27A2,0},{0x27B0,14},{0x27B1,0},{0x27BF,14},{0x27C0,0},{0x2934,14},{0x2936,0},{0x2B05,14},{0x2B08,0},{0x2B1B,14},{0x2B1D,0},
{0x2B50,14},{0x2B51,0},{0x2B55,14},{0x2B56,0},{0x2CEF,4},{0x2CF2,0},{0x2D7F,4},{0x2D80,0},{0x2DE0,4},{0x2E00,0},{0x302A,4},{0x3030,14},
{0x3031,0},{0x303D,14},{0x303E,0},{0x3099,4},{0x309B,0},{0x3297,14},{0x3298,0},{0x3299,14},{0x329A,0},{0xA66F,4},{0xA673,0},{0xA674,4},
{0xA67E,0},{0xA69E,4},{0xA6A0,0},{0xA6F0,4},{0xA6F2,0},{0xA802,4},{0xA803,0},{0xA806,4},{0xA807,0},{0xA80B,4},{0xA80C,0},{0xA823,6},
{0xA825,4},{0xA827,6},{0xA828,0},{0xA82C,4},{0xA82D,0},{0xA880,6},{0xA882,0},{0xA8B4,6},{0xA8C4,4},{0xA8C6,0},{0xA8E0,4},{0xA8F2,0},
{0xA8FF,4},{0xA900,0},{0xA926,4},{0xA92E,0},{0xA947,4},{0xA952,6},{0xA954,0},{0xA960,8},{0xA97D,0},{0xA980,4},{0xA983,6},{0xA984,0},
{0xA9B3,4},{0xA9B4,6},{0xA9B6,4},{0xA9BA,6},{0xA9BC,4},{0xA9BE,6},{0xA9C1,0},{0xA9E5,4},{0xA9E6,0},{0xAA29,4},{0xAA2F,6},{0xAA31,4},
{0xAA33,6},{0xAA35,4},{0xAA37,0},{0xAA43,4},{0xAA44,0},{0xAA4C,4},{0xAA4D,6},{0xAA4E,0},{0xAA7C,4},{0xAA7D,0},{0xAAB0,4},{0xAAB1,0},
{0xAAB2,4},{0xAAB5,0},{0xAAB7,4},{0xAAB9,0},{0xAABE,4},{0xAAC0,0},{0xAAC1,4},{0xAAC2,0},{0xAAEB,6},{0xAAEC,4},{0xAAEE,6},{0xAAF0,0},
{0xAAF5,6},{0xAAF6,4},{0xAAF7,0},{0xABE3,6},{0xABE5,4},{0xABE6,6},{0xABE8,4},{0xABE9,6},{0xABEB,0},{0xABEC,6},{0xABED,4},{0xABEE,0},
{0xAC00,11},{0xD7A4,0},{0xD7B0,9},{0xD7C7,0},{0xD7CB,10},{0xD7FC,0},{0xFB1E,4},{0xFB1F,0},{0xFE00,4},{0xFE10,0},{0xFE20,4},{0xFE30,0},
{0xFEFF,3},{0xFF00,0},{0xFF9E,4},{0xFFA0,0},{0xFFF0,3},{0xFFFC,0},{0x101FD,4},{0x101FE,0},{0x102E0,4},{0x102E1,0},{0x10376,4},{0x1037B,0},
{0x10A01,4},{0x10A04,0},{0x10A05,4},{0x10A07,0},{0x10A0C,4},{0x10A10,0},{0x10A38,4},{0x10A3B,0},{0x10A3F,4},{0x10A40,0},{0x10AE5,4},{0x10AE7,0},
{0x10D24,4},{0x10D28,0},{0x10EAB,4},{0x10EAD,0},{0x10F46,4},{0x10F51,0},{0x11000,6},{0x11001,4},{0x11002,6},{0x11003,0},{0x11038,4},{0x11047,0},
{0x1107F,4},{0x11082,6},{0x11083,0},{0x110B0,6},{0x110B3,4},{0x110B7,6},{0x110B9,4},{0x110BB,0},{0x110BD,7},{0x110BE,0},{0x110CD,7},{0x110CE,0},
{0x11100,4},{0x11103,0},{0x11127,4},{0x1112C,6},{0x1112D,4},{0x11135,0},{0x11145,6},{0x11147,0},{0x11173,4},{0x11174,0},{0x11180,4},{0x11182,6},
{0x11183,0},{0x111B3,6},{0x111B6,4},{0x111BF,6},{0x111C1,0},{0x111C2,7},{0x111C4,0},{0x111C9,4},{0x111CD,0},{0x111CE,6},{0x111CF,4},{0x111D0,0},
{0x1122C,6},{0x1122F,4},{0x11232,6},{0x11234,4},{0x11235,6},{0x11236,4},{0x11238,0},{0x1123E,4},{0x1123F,0},{0x112DF,4},{0x112E0,6},{0x112E3,4},
{0x112EB,0},{0x11300,4},{0x11302,6},{0x11304,0},{0x1133B,4},{0x1133D,0},{0x1133E,4},{0x1133F,6},{0x11340,4},{0x11341,6},{0x11345,0},{0x11347,6},
{0x11349,0},{0x1134B,6},{0x1134E,0},{0x11357,4},{0x11358,0},{0x11362,6},{0x11364,0},{0x11366,4},{0x1136D,0},{0x11370,4},{0x11375,0},{0x11435,6},
{0x11438,4},{0x11440,6},{0x11442,4},{0x11445,6},{0x11446,4},{0x11447,0},{0x1145E,4},{0x1145F,0},{0x114B0,4},{0x114B1,6},{0x114B3,4},{0x114B9,6},
{0x114BA,4},{0x114BB,6},{0x114BD,4},{0x114BE,6},{0x114BF,4},{0x114C1,6},{0x114C2,4},{0x114C4,0},{0x115AF,4},{0x115B0,6},{0x115B2,4},{0x115B6,0},
{0x115B8,6},{0x115BC,4},{0x115BE,6},{0x115BF,4},{0x115C1,0},{0x115DC,4},{0x115DE,0},{0x11630,6},{0x11633,4},{0x1163B,6},{0x1163D,4},{0x1163E,6},
{0x1163F,4},{0x11641,0},{0x116AB,4},{0x116AC,6},{0x116AD,4},{0x116AE,6},{0x116B0,4},{0x116B6,6},{0x116B7,4},{0x116B8,0},{0x1171D,4},{0x11720,0},
{0x11722,4},{0x11726,6},{0x11727,4},{0x1172C,0},{0x1182C,6},{0x1182F,4},{0x11838,6},{0x11839,4},{0x1183B,0},{0x11930,4},{0x11931,6},{0x11936,0},
{0x11937,6},{0x11939,0},{0x1193B,4},{0x1193D,6},{0x1193E,4},{0x1193F,7},{0x11940,6},{0x11941,7},{0x11942,6},{0x11943,4},{0x11944,0},{0x119D1,6},
{0x119D4,4},{0x119D8,0},{0x119DA,4},{0x119DC,6},{0x119E0,4},{0x119E1,0},{0x119E4,6},{0x119E5,0},{0x11A01,4},{0x11A0B,0},{0x11A33,4},{0x11A39,6},
{0x11A3A,7},{0x11A3B,4},{0x11A3F,0},{0x11A47,4},{0x11A48,0},{0x11A51,4},{0x11A57,6},{0x11A59,4},{0x11A5C,0},{0x11A84,7},{0x11A8A,4},{0x11A97,6},
{0x11A98,4},{0x11A9A,0},{0x11C2F,6},{0x11C30,4},{0x11C37,0},{0x11C38,4},{0x11C3E,6},{0x11C3F,4},{0x11C40,0},{0x11C92,4},{0x11CA8,0},{0x11CA9,6},
{0x11CAA,4},{0x11CB1,6},{0x11CB2,4},{0x11CB4,6},{0x11CB5,4},{0x11CB7,0},{0x11D31,4},{0x11D37,0},{0x11D3A,4},{0x11D3B,0},{0x11D3C,4},{0x11D3E,0},
{0x11D3F,4},{0x11D46,7},{0x11D47,4},{0x11D48,0},{0x11D8A,6},{0x11D8F,0},{0x11D90,4},{0x11D92,0},{0x11D93,6},{0x11D95,4},{0x11D96,6},{0x11D97,4},
{0x11D98,0},{0x11EF3,4},{0x11EF5,6},{0x11EF7,0},{0x13430,3},{0x13439,0},{0x16AF0,4},{0x16AF5,0},{0x16B30,4},{0x16B37,0},{0x16F4F,4},{0x16F50,0},
{0x16F51,6},{0x16F88,0},{0x16F8F,4},{0x16F93,0},{0x16FE4,4},{0x16FE5,0},{0x16FF0,6},{0x16FF2,0},{0x1BC9D,4},{0x1BC9F,0},{0x1BCA0,3},{0x1BCA4,0},
{0x1D165,4},{0x1D166,6},{0x1D167,4},{0x1D16A,0},{0x1D16D,6},{0x1D16E,4},{0x1D173,3},{0x1D17B,4},{0x1D183,0},{0x1D185,4},{0x1D18C,0},{0x1D1AA,4},
{0x1D1AE,0},{0x1D242,4},{0x1D245,0},{0x1DA00,4},{0x1DA37,0},{0x1DA3B,4},{0x1DA6D,0},{0x1DA75,4},{0x1DA76,0},{0x1DA84,4},{0x1DA85,0},{0x1DA9B,4},
{0x1DAA0,0},{0x1DAA1,4},{0x1DAB0,0},{0x1E000,4},{0x1E007,0},{0x1E008,4},{0x1E019,0},{0x1E01B,4},{0x1E022,0},{0x1E023,4},{0x1E025,0},{0x1E026,4},
{0x1E02B,0},{0x1E130,4},{0x1E137,0},{0x1E2EC,4},{0x1E2F0,0},{0x1E8D0,4},{0x1E8D7,0},{0x1E944,4},{0x1E94B,0},{0x1F000,14},{0x1F100,0},{0x1F10D,14},
{0x1F110,0},{0x1F12F,14},{0x1F130,0},{0x1F16C,14},{0x1F172,0},{0x1F17E,14},{0x1F180,0},{0x1F18E,14},{0x1F18F,0},{0x1F191,14},{0x1F19B,0},{0x1F1AD,14},
{0x1F1E6,13},{0x1F200,0},{0x1F201,14},{0x1F210,0},{0x1F21A,14},{0x1F21B,0},{0x1F22F,14},{0x1F230,0},{0x1F232,14},{0x1F23B,0},{0x1F23C,14},{0x1F240,0},
{0x1F249,14},{0x1F3FB,4},{0x1F400,14},{0x1F53E,0},{0x1F546,14},{0x1F650,0},{0x1F680,14},{0x1F6DC,0},{0x1F6E0,14},{0x1F700,0},{0x1F777,14},{0x1F77B,0},
{0x1F7D5,14},{0x1F7D9,0},{0x1F7DA,14},{0x1F7F0,0},{0x1F7F1,14},{0x1F800,0},{0x1F80C,14},{0x1F810,0},{0x1F848,14},{0x1F850,0},{0x1F85A,14},{0x1F860,0},
{0x1F888,14},{0x1F890,0},{0x1F8AE,14},{0x1F900,0},{0x1F90C,14},{0x1F93B,0},{0x1F93C,14},{0x1F946,0},{0x1F947,14},{0x1F979,0},{0x1F97A,14},{0x1F9CC,0},
{0x1F9CD,14},{0x1FA75,0},{0x1FA78,14},{0x1FA7B,0},{0x1FA7D,14},{0x1FA87,0},{0x1FA89,14},{0x1FAA9,0},{0x1FAB0,14},{0x1FAB7,0},{0x1FABE,14},{0x1FABF,0},
{0x1FAC0,14},{0x1FAC3,0},{0x1FAC6,14},{0x1FACE,0},{0x1FAD0,14},{0x1FAD7,0},{0x1FADC,14},{0x1FAE0,0},{0x1FAE9,14},{0x1FAF0,0},{0x1FAF9,14},{0x1FB00,0},
{0x1FC00,14},{0x1FFFE,0},{0xE0000,3},{0xE0020,4},{0xE0080,3},{0xE0100,4},{0xE01F0,3},{0xE1000,0},
};
enum { N = sizeof(ranges) / sizeof(ranges[0]) };
}
