#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

UTF="include/strf/detail/utf.hpp"; CS="include/strf/detail/facets/charset.hpp"; SB="include/strf/detail/single_byte_charsets.hpp"
DST="include/strf/destination.hpp"; STRH="include/strf/to_string.hpp"
PT="include/strf/detail/printable_types/"

p("C01","UTF transcoding is exactly Unicode-conformant for every input",
  "Transcoding or sanitizing any sequence of code units between UTF-8, UTF-16 and UTF-32 yields exactly the Unicode-conformant result: every well-formed scalar is encoded as that same scalar, and every maximal ill-formed subsequence is replaced by one U+FFFD. "
  "Each ill-formed subsequence is reported to the error notifier exactly once, in order, at its true position and with its true size, and replaced by nothing but U+FFFD. "
  "The stop-on-error and lax-surrogate options change only what they document, and a stop leaves the source and destination positions at the documented place.",
  ["inputs","configurations"],"for every code-unit sequence, every pair of UTF encodings and every combination of transcoding flags",
  "Tests list a few dozen hand-picked sequences per encoding pair; the rules must hold for all 2^32 four-byte (and longer) combinations with each flag set.",
  [UTF,CS],[("static_transcoder<...>::transcode per UTF pair",UTF),("UTF-8 sequence classification helpers",UTF)],observe=["return value, output units and notifier calls of transcode()"])
p("C02","Transcoding respects the output bound and can be resumed exactly",
  "A transcode call never writes outside the destination range it was given, never reads outside the source range, and when the space runs out it reports it, having consumed only input whose complete encoding was written. "
  "Resuming from the reported positions with more space yields the same total output and reports the same errors as one call with unlimited space; the only repetition is an ill-formed sequence whose replacement did not fit, which the resumed call reports again. "
  "Lack of space is reported only if something still had to be written.",
  ["inputs","configurations"],"for every input sequence and every destination capacity, including capacities that end in the middle of a multi-unit character",
  "Tests use a few capacities with a few strings; a lost or duplicated unit, or an overrun by one, shows only for a specific capacity/sequence combination.",
  [UTF,SB,CS],[("room checks before each multi-unit write",UTF),("insufficient_output_space handling",UTF)],observe=["src_ptr/dst_ptr of the result","bytes around the destination range"])
p("C03","Size calculations agree exactly with what transcoding writes",
  "For any input, the size computed in advance for a conversion equals the number of code units the conversion writes, including replacement characters, early stops and size limits. "
  "A buffer of exactly that size is always sufficient and is filled exactly.",
  ["inputs","configurations"],"for every input sequence, every charset pair, every flag set and every size limit",
  "Callers allocate from the computed size, so one disagreeing sequence is a buffer overrun; tests compare sizes only for the sample strings.",
  [UTF,SB,CS],[("transcode_size functions",UTF),("decode_encode_size",CS)])
p("C04","The unsafe conversions equal the safe ones on valid input",
  "On every well-formed input the functions that skip validation produce exactly the output, result positions and sizes of the validating ones, including behaviour when the destination space is exhausted.",
  ["inputs","configurations"],"for every well-formed sequence, every charset pair, flag set and destination capacity",
  "The unsafe code is a separate implementation; tests sample it with a handful of strings.",
  [UTF,SB,CS],[("unsafe_transcode / unsafe_transcode_size / unsafe_decode_encode",UTF)])
p("C05","Character-level charset queries are mutually consistent",
  "For every 32-bit value, a charset's validation, encoded size, encoding and decoding of a single character agree with each other and with what its string transcoders produce: valid values round-trip exactly, and values the charset cannot encode are encoded as its replacement character, of the announced size (surrogates, and in UTF-32 every value, are encoded unsanitized, as documented). A code unit that is no character by itself decodes to U+FFFD. "
  "Filling with a character writes exactly count copies of that same encoding, whatever the destination's chunking, and the replacement writer writes exactly the charset's replacement.",
  ["inputs","configurations"],"for every 32-bit value and code unit, every supported charset, every fill count within bounds and every buffer boundary",
  "Exhaustive agreement over 2^32 values and all buffer boundaries is out of reach of sampled tests.",
  [UTF,SB,CS],[("validate/encoded_char_size/encode_char/encode_fill/decode_unit",UTF),("single-byte encode tables",SB)])
p("C06","Single-byte charsets map every byte and code point as their standard says",
  "Every supported single-byte charset decodes each byte to the code point its standard assigns, reports unassigned bytes as invalid and replaces them, and encodes each code point to the byte that decodes to it. "
  "Code points the charset cannot represent are reported as unsupported (never the replacement character itself) and written as the charset's replacement, with the same stop, position and size rules as the Unicode encodings.",
  ["inputs","configurations"],"for every byte / 32-bit value sequence and each of the supported single-byte charsets and flag sets",
  "Tests check the tables byte by byte but not all 2^32 code points, sequences, flags and capacities.",
  [SB,CS],[("per-charset decode/encode functions and tables",SB),("single_byte_charset_to_utf32 / utf32_to_single_byte_charset transcoders",SB)])
p("C07","Conversion through a pivot equals direct conversion",
  "Converting between two charsets by any route the library offers (direct transcoder, pivoting through UTF-32, into a pointer range or into an output stream of any chunking) produces the same output. "
  "The positions and stop reason it reports are those of the same conversion done in one step, and a conversion that runs to completion reports the same ill-formed sequences and the same unsupported code points, each exactly once and each kind in order.",
  ["inputs","configurations"],"for every input sequence, charset pair, flag set, capacity and destination chunking, including inputs longer than the internal pivot buffer",
  "The pivot loop has its own state (pivot buffer boundaries, stale positions) that only specific lengths and error positions exercise.",
  [CS],[("decode_encode, unsafe_decode_encode, decode_encode_size",CS),("transcode() function templates",CS)],
  [("pivot buffer","32-bit pivot characters between decode and encode steps",CS)])
p("C08","Code point counting is exact",
  "Counting code points returns the number of characters the string would decode to (each ill-formed subsequence counting as one), stops exactly at the requested maximum, and returns a position that lies on a character boundary and matches the count; the fast variant agrees with it on well-formed input and never leaves the string on any input.",
  ["inputs","configurations"],"for every sequence, every maximum count, every charset and flag set",
  "The count drives width and precision; its loops have boundary conditions at truncated sequences and at the limit which tests sample sparsely.",
  [UTF,SB],[("count_codepoints / count_codepoints_fast",UTF)])
p("C09","Runtime charset objects behave as the static ones they wrap",
  "A type-erased charset or transcoder, and the one found by a runtime lookup between two charset identities, gives for every operation the same results as the static charset or transcoder it stands for; lookups that cannot be served say so.",
  ["inputs","configurations"],"for every charset, every operation and every input",
  "The erased objects hold one function pointer per operation; a mis-wired pointer is visible only through that operation with distinguishing input.",
  [CS],[("dynamic_charset / dynamic_transcoder / find_transcoder",CS)])
p("C10","Writing to fixed-size memory truncates safely and exactly",
  "Printing into a caller-provided character array never writes outside it; the content left in it is a prefix of the full output, followed by a terminator for C-string destinations: the whole output if it fits, otherwise the longest prefix that fits except that a piece which is composed in place (after ensure, e.g. one multi-unit character or a number) is cut before it, and truncation is reported if and only if something was lost. "
  "This holds for any sequence of writes, also after truncation began, and the reported end pointer always designates the end of the content inside the caller's memory.",
  ["inputs","histories","configurations"],"for every buffer size, content and sequence of write operations of any lengths",
  "Tests write one or two short pieces; sequences that keep writing long pieces after overflow are not sampled.",
  [DST],[("basic_cstr_destination, array_destination: recycle, do_write, finish",DST)],
  [("garbage area","where output goes after overflow",DST)],["array contents","finish() result"])
p("C11","Creating, appending and assigning strings yields exactly the printed text",
  "Printing to a string object yields exactly the characters the arguments produce, whatever size was reserved: appended text preserves the existing content as prefix and a bare, reserved or calculated reservation changes only performance. "
  "If allocation or any argument throws, the exception propagates, nothing is leaked or double-freed, and a string being assigned stays a valid object.",
  ["inputs","histories","fault_sequences","configurations"],"for every sequence of writes, every reserve policy and size, and every point at which allocation can fail",
  "Growth boundaries depend on lengths vs. buffer sizes, and allocation failures are not injected by tests.",
  [STRH,"include/strf/detail/reserve_policies.hpp"],[("basic_string_maker / basic_string_appender / basic_sized_string_maker",STRH)])
p("C12","File and stream sinks receive a prefix and report it truthfully",
  "Whatever partial or failed writes the underlying FILE or streambuf performs, the characters it received are a contiguous prefix of the output without gaps or repetitions, the reported count equals the number of characters it accepted, and success is reported if and only if everything was accepted. "
  "After a failure nothing more is sent to the sink.",
  ["inputs","fault_sequences","histories"],"for every content, chunking of writes and every short-write/failure schedule of the sink",
  "Tests fail the sink in one place; the rule is about every possible failure point and the writes after it.",
  ["include/strf/to_cfile.hpp","include/strf/to_streambuf.hpp"],[("do_write/recycle/finish of the writers","include/strf/to_cfile.hpp"),("basic_streambuf_writer","include/strf/to_streambuf.hpp")],
  [("good flag and count","whether and how much the sink accepted","include/strf/to_cfile.hpp")])
p("C13","Integers print as their exact value in every base and type",
  "Every integer of every supported type prints as its exact value in binary, octal, decimal or hexadecimal: digits without superfluous leading zeros, a minus sign exactly for negatives in decimal, the requested sign, base prefix, precision and zero padding, and nothing else. "
  "Non-decimal bases show the two's-complement bits of the argument's own type.",
  ["inputs","configurations"],"for every value of every integer type, every base and every combination of format flags",
  "Tests sample values; table-driven digit extraction can be wrong for values they do not include.",
  [PT+"int.hpp","include/strf/detail/int_digits.hpp"],[("digit counting and digit writing","include/strf/detail/int_digits.hpp"),("int printers",PT+"int.hpp")])
p("C14","Digit grouping places separators exactly where the grouping says",
  "With punctuation enabled, removing the separators from a number gives the number printed without punctuation, and the separators stand exactly at the positions the grouping specification defines, for the whole and only the whole integral part, with the chosen separator and decimal point encoded in the destination charset. "
  "Groupings built from lists, from locale strings or from constants mean the same thing.",
  ["inputs","configurations"],"for every value, every grouping, separator, base and charset",
  "Separator position depends on digit count modulo group structure; tests sample a few groupings.",
  ["include/strf/detail/facets/numpunct.hpp",PT+"int.hpp","include/strf/detail/int_digits.hpp"],[("digits_grouping: separators_count, distribute","include/strf/detail/facets/numpunct.hpp"),("intdigits writers with separators","include/strf/detail/int_digits.hpp")])
p("C15","Alignment pads to exactly the requested width on the requested side",
  "An argument or joined group printed with a width is padded with exactly the number of fill characters that makes its measured width reach the requested one, none if it is already as wide, on the side(s) the alignment says (the odd fill of a centred value going to the right), and its own text is unchanged.",
  ["inputs","configurations"],"for every width, fill character, alignment, argument kind, value and charset",
  "Combinations of width, alignment, fill, sign, prefix and charset are far more than the tests enumerate.",
  [PT+"int.hpp",PT+"string.hpp",PT+"char.hpp",PT+"bool.hpp","include/strf/detail/printable_types/join.hpp" ],[("fill counting in each printer",PT+"int.hpp"),("aligned join printer",PT+"join.hpp")])
p("C16","Premeasured size equals printed size and premeasured width equals width",
  "For every argument and format the size measured in advance equals the number of characters subsequently printed, so the calculated reservation is always exact, and measuring never changes what is printed. "
  "The width measured in advance is the width used when the item is aligned, also when measurement stops early because a limit is reached.",
  ["inputs","configurations"],"for every value, format, facet selection and charset, for all printable kinds",
  "Measuring and printing are separate code paths per printable type; tests compare them only for sampled cases.",
  ["include/strf/detail/premeasurements.hpp","include/strf/detail/reserve_policies.hpp",PT+"int.hpp",PT+"string.hpp",PT+"float.hpp","include/strf/detail/tr_printer.hpp"],[("premeasurements","include/strf/detail/premeasurements.hpp")])
p("C17","Output is independent of how the destination is chunked",
  "The character sequence a print expression delivers is the same for every destination: it does not depend on where the destination's internal buffer ends, how much space it offers after each flush, or whether writing is done at once or piecewise. "
  "Nothing is written outside the space offered, and writing to a destination that has failed stays harmless.",
  ["inputs","histories","configurations"],"for every print expression, every initial buffer space and every sequence of spaces offered by later flushes",
  "Boundary splits (a fill, digit group or multi-unit character straddling the buffer end) need specific space/content combinations.",
  [DST,PT+"int.hpp",PT+"string.hpp",PT+"float.hpp","include/strf/detail/printing_helpers.hpp","include/strf/detail/int_digits.hpp"],[("ensure/recycle/do_write protocol",DST)])
p("C18","Template strings expand as specified for every template text",
  "For every template string each automatic or numbered placeholder is replaced by the designated argument, escapes and comments are handled as documented, and all other text is copied verbatim; parsing never reads outside the template. "
  "A placeholder without corresponding argument prints the replacement character and is reported to the error handler exactly once with its true position.",
  ["inputs","configurations"],"for every template text (well formed or not), argument count and character type",
  "The template is free text; tests use a list of examples, malformed tails and large indexes are barely sampled.",
  ["include/strf/detail/tr_printer.hpp",PT+"tr_string.hpp"],[("tr_string_write / tr_string_size","include/strf/detail/tr_printer.hpp")])
p("C19","String width limits and width calculators cut at the right place",
  "Each width calculator returns the documented width of any string or character, and for a limit returns the longest prefix not wider than the limit together with that prefix's width; consistent results hold between the two queries. "
  "A string printed with a precision is exactly that longest prefix, never splitting a character (or, for the standard calculator, a grapheme cluster).",
  ["inputs","configurations"],"for every string, limit (including fractional, zero and negative), calculator, charset and flags",
  "The grapheme state machine and chunked decoding have many states that the sampled strings do not combine.",
  ["include/strf/detail/facets/width_calculator.hpp",PT+"string.hpp"],[("std_width_calc, width_as_u32len, width_as_fast_u32len, fast_width","include/strf/detail/facets/width_calculator.hpp")])
p("C20","Width arithmetic is exact or saturates",
  "Width values built from integers, added, subtracted, multiplied or compared through the saturating and comparison operations behave as exact fixed-point numbers clamped to the representable range, for every operand including the extremes. "
  "Rounding, floor and ceiling return the mathematically right integer, and ordinary arithmetic is exact whenever the exact result is representable.",
  ["inputs"],"for all operand pairs of all supported integer types",
  "The interesting operands are the extremes of 32x64-bit operand spaces; tests sample a few of them.",
  ["include/strf/width_t.hpp"],[("sat_add/sat_sub/sat_mul/compare/floor/ceil/round","include/strf/width_t.hpp")])
p("C21","Floating-point numbers print the value they hold",
  "Floating-point numbers print a text that denotes exactly the number (the shortest decimal that reads back to the same value when no precision is given; that decimal rounded half to even to the precision when one is; the value itself in hexadecimal), in the requested notation, general choosing between fixed and scientific as documented; infinities, NaNs, signed zeros, subnormals and the hexadecimal form included. "
  "Sign, point, exponent, precision, padding and grouping options change only what they document.",
  ["inputs","configurations"],"for every float and double value and every combination of float format options",
  "There are 2^64 values; the existing fuzz-like test samples some at random.",
  [PT+"float.hpp","include/strf/detail/dragonbox.hpp"],[("float decomposition and layout",PT+"float.hpp"),("dragonbox shortest decimal","include/strf/detail/dragonbox.hpp")])
p("C22","Ranges, joins and separators compose to the concatenation of their parts",
  "Printing a range equals printing its elements in order with the range's format, with the separator between consecutive elements and nowhere else; a join equals the concatenation of its arguments, and nested joins and ranges behave likewise. "
  "Each element is printed exactly once per output.",
  ["inputs","configurations"],"for every range length, element values, separators, element formats and nesting within bounds",
  "Composition is checked in tests with constant sequences only.",
  [PT+"range.hpp",PT+"join.hpp"],[("range printers",PT+"range.hpp"),("join printers",PT+"join.hpp")])
p("C23","The facet in effect for an argument is the innermost applicable one",
  "For every argument the facet of a category that takes effect is the last applicable one given, inner groups overriding outer ones only for the arguments they enclose, constrained facets applying only to the argument types they admit, and the default otherwise.",
  ["inputs","configurations"],"for every facets list (order, constraints, nesting) and argument type within bounds, with the facets' contents symbolic",
  "Selection is by overload resolution on nested packs; the number of nestings and orders exceeds the tests' samples.",
  ["include/strf/facets_pack.hpp",PT+"join.hpp"],[("facets_pack lookup","include/strf/facets_pack.hpp"),("with()",PT+"join.hpp")])
p("C24","Strings, characters and booleans print exactly their content",
  "A string, character or boolean argument prints exactly its content in the destination charset: same-charset strings verbatim, converted strings as the transcoding rules say with the selected error policy, a repeated character exactly the requested number of times, and booleans their word.",
  ["inputs","configurations"],"for every content, source and destination charset, invalid-sequence and surrogate policy, count and format",
  "String printing combines conversion, precision, alignment and error policy; tests sample each separately.",
  [PT+"string.hpp",PT+"char.hpp",PT+"bool.hpp"],[("string/transcoding printers",PT+"string.hpp"),("char printers",PT+"char.hpp")])
p("C25","The output iterator and raw output primitives write exactly what is given",
  "Writing elements one by one through the output iterator, by single puts or by block writes of any length delivers exactly the same elements in the same order to any output buffer, and a discarding destination accepts everything.",
  ["inputs","histories","configurations"],"for every interleaving of puts, iterator writes and block writes, every buffer boundary and failure point",
  "The primitives are used with every buffer state; tests only use a few fixed sizes.",
  [DST,"include/strf/iterator.hpp","include/strf/output_buffer_functions.hpp"],[("output_buffer::do_write, write, put, ensure",DST),("output_buffer_iterator","include/strf/iterator.hpp")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    for f in x["anchors"]["files"]:
        assert os.path.exists("/repo/"+f),f
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
