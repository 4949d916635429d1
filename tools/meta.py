#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list.  CLAIMED decides checks vs not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
H, I, S = "src/scn/impl.h", "src/scn/impl.cpp", "include/scn/scan.h"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, note=note))
prop("C01", "Scanning any text with any runtime format string is memory safe and returns",
 "For every input text and every runtime format string, a scan call returns a value or an error: it never reads or writes outside its buffers, uses freed memory, leaks, divides by zero or otherwise runs into undefined behaviour, trips an internal assertion, aborts, or fails to terminate. This includes ill-formed UTF-8 and malformed format strings.",
 ["inputs", "programs"], "all byte strings as input and as format string, for every scannable type",
 "Tests use well-formed text almost everywhere; the failing cases are particular malformed byte sequences at particular offsets.",
 [I, H, S, "include/scn/fwd.h"], [{"name": "decoding, width counting, buffer iteration, format parsing", "where": H}, {"name": "format string parser", "where": S}])
prop("C02", "Scanning an integer yields exactly the mathematical value and consumes exactly it",
 "For every input, scanning an integer type with {}, {:d}, {:i}, {:u}, {:x}, {:o} or {:b} skips leading whitespace, accepts an optional sign (no minus for unsigned types or {:u}) and an optional base prefix, reads the longest run of digits of that base, returns exactly its mathematical value, and leaves the input positioned right after it. Text that does not start with such a number is rejected as an invalid value, and text with nothing but whitespace as end of input.",
 ["inputs"], "every input text up to the bound, every integer type and integer presentation, plus long digit runs with one arbitrary byte anywhere",
 "Tests sample a few dozen numbers; the eight-digits-at-a-time path, prefix handling and stop conditions depend on combinations of bytes and lengths no sample covers.",
 [H, I], [{"name": "integer reader", "where": H + " reader_impl_for_int"}, {"name": "digit parsing", "where": I + " parse_integer_value"}])
prop("C03", "Integer overflow is always detected and never reported falsely",
 "For every digit string of any length, scanning an integer type succeeds exactly when the mathematical value fits the type, and otherwise fails with the positive- or negative-overflow error matching the sign. No wrapped or truncated value is ever returned.",
 ["inputs"], "all digit strings (per base 2, 8, 10, 16) up to 39 digits with optional sign, all ten integer types",
 "The wrong cases are specific digit strings among 10^20; tests only check max, max+1 and the like.",
 [I], [{"name": "overflow test by digit count and wrapped value", "where": I + " check_integer_overflow"}])
prop("C04", "scan_int agrees with format-string scanning for every base",
 "For every text and every base from 2 to 36 (and 0, detecting the base from a prefix), scan_int returns the same value, remaining text and error as the documented integer grammar in that base, and the unchecked decimal variant returns the exact value for every valid decimal text.",
 ["inputs", "configurations"], "every base 0, 2..36, every input text up to the bound, all integer types",
 "Tests call it with a couple of bases and inputs.",
 [S, I], [{"name": "scan_int / scan_int_exhaustive_valid", "where": S}, {"name": "scan_int_impl", "where": I}])
prop("C05", "The result does not depend on the kind of source range",
 "For every text, format string and argument types, scanning a non-contiguous or forward-only range (such as a deque or a list-like view) or an erased buffer gives the same values, the same error code and the same amount of consumed input as scanning the same text as a contiguous string. Only views into the source may be refused for non-contiguous sources.",
 ["inputs", "configurations"], "all texts up to the bound over a contiguous string, a random-access non-contiguous range and a forward range, several formats and types",
 "Tests run most inputs on string_view only; segment boundaries inside a token need specific combinations.",
 [H, I, S, "include/scn/fwd.h"], [{"name": "scan buffers and forward iterator", "where": S + " basic_scan_buffer"}, {"name": "contiguous fast path selection", "where": H + " default_arg_reader, arg_reader"}])
prop("C06", "Scanning a FILE reads the same as a string and leaves the stream position right",
 "For every text and every way the C stream delivers it in chunks, scanning a FILE (with scan, scan_value, input or prompt) gives the same values and error codes as scanning the same text as a string, and afterwards the next byte read from the stream is the first one not consumed. After an error the input scanned so far is not lost.",
 ["inputs", "schedules"], "all texts up to the bound, all chunkings of the stream (including one byte at a time), sequences of scans",
 "Tests use one small file that fits one buffer; buffer boundaries inside a token are not sampled.",
 [I, H], [{"name": "file buffer fill and sync", "where": I + " basic_scan_file_buffer"}])
prop("C07", "Scanned strings are exactly the documented part of the input",
 "For every input, {} and {:s} return the longest run of non-whitespace after leading whitespace, {:[set]} the longest non-empty prefix of code points in (or, with ^, not in) the set, and {:.Nc} exactly the next N columns without skipping; std::string and std::string_view give the same text, and a string_view points into the source. An empty match of {}, {:s} (unaligned) or a set is an error, never a success.",
 ["inputs"], "every input text up to the bound; a family of character sets including ranges, inverted and non-ASCII sets",
 "Tests use a few words; code points that share bytes with spaces or set members are not sampled.",
 [H, I], [{"name": "string readers", "where": H + " string_reader"}, {"name": "space search", "where": I + " find_classic_space_narrow_fast"}])
prop("C08", "Ill-formed text never ends up in a scanned string",
 "For every input, a successfully scanned string, string_view, wide string, code point (char32_t) or wide character taken from a narrow source is well-formed in its encoding; input whose matched part is ill-formed is rejected with an error. Well-formed input is never rejected for its encoding.",
 ["inputs"], "every byte string up to the bound for narrow sources, every sequence of 32-bit units for wide sources",
 "There are 2^32 four-byte sequences; tests list a few.",
 [I, H, S], [{"name": "validation", "where": I + " validate_unicode"}, {"name": "decoding tables", "where": S}])
prop("C09", "Converting between narrow and wide text is exact in both directions",
 "For every well-formed text, scanning it from a narrow source into a wide string (or from a wide source into a narrow string) yields exactly the same sequence of code points, and scanning a wide character or a code point from a narrow source yields exactly the first code point. The amount of consumed input is the same as without the conversion.",
 ["inputs"], "every input text up to the bound",
 "All code points of all lengths are quantified; tests convert a handful of strings.",
 [I, H], [{"name": "transcoding", "where": I + " transcode"}])
prop("C10", "Format literals and whitespace match exactly as documented",
 "For every input and format, literal text in a format string must match the input exactly code unit by code unit, whitespace in a format matches any amount of whitespace in the input, {{ and }} stand for braces, and any mismatch fails with the invalid-literal error. Text following a match is left unread.",
 ["inputs", "programs"], "every short literal format (symbolic) against every short input, and mixed formats with replacement fields",
 "Tests use a few literals; the interplay of whitespace runs, Unicode spaces and literals is combinatorial.",
 [I, S], [{"name": "literal matching", "where": I + " format_handler::on_literal_text"}, {"name": "format parser", "where": S + " parse_format_string"}])
prop("C11", "Field width, precision, alignment and fill are honoured exactly",
 "For every input, a precision (.N) limits a field, the fill or whitespace skipped around the value included, to N columns, and a width (N) makes shorter fields an error of code length-too-short; columns are counted per code point, two for the documented double-width ones. The alignment decides on which side fill characters are skipped, and only fill characters are skipped: before the value for >, after it for <, on both sides for ^; without an alignment, whitespace is skipped before a value, and after a character or set while the width or precision is not used up. The value is the one the bare type reads from exactly the text left for it; it is never read from beyond the limit.",
 ["inputs", "configurations"], "every input text up to the bound for a family of width/precision/alignment/fill combinations on integers and strings",
 "Combinations of limits, fills and multi-column or multi-byte characters are not sampled by tests.",
 [H], [{"name": "width-limited view", "where": H + " take_width_view"}, {"name": "fill handling", "where": H + " arg_reader"}])
prop("C12", "Booleans are read exactly as documented",
 "For every input, {} on a bool accepts 0, 1, true and false after leading whitespace, {:s} only the words and the integer presentations only 0 and 1; anything else is an invalid value. Exactly the matched text is consumed.",
 ["inputs"], "every input text up to the bound, all bool presentations, narrow and wide",
 "Tests try a few words.", [H], [{"name": "bool reader", "where": H + " bool_reader_base"}])
prop("C13", "Characters are read one at a time, without skipping anything",
 "For every input, {} and {:c} on char return exactly the next code unit including whitespace, on char32_t (and on wchar_t from a narrow source) exactly the next code point, and consume exactly that; the integer presentations {:d}, {:i}, {:x}, {:o}, {:b}, {:u} of char and wchar_t read a number of that size, starting right at the input position. Empty input is end of input for {} and {:c}, and an error otherwise.",
 ["inputs"], "every input text up to the bound", "Tests try a few characters; every lead/continuation byte pattern is quantified here.",
 [H], [{"name": "character readers", "where": H + " reader_impl_for_char"}])
prop("C14", "Floating-point fields are delimited and classified by the documented grammar",
 "For every input, scanning a floating-point type consumes exactly the longest text of the documented grammar for the presentation (sign, decimal or hex digits, point, exponent, inf, nan(...)), and the value is the one the C library assigns to exactly that text. Text outside the grammar is an invalid value.",
 ["inputs"], "every input text up to the bound, float, double and long double, all float presentations",
 "Tests check typical numbers; where the number ends and which tail is left unread is not sampled.",
 [I, H], [{"name": "float reader", "where": H + " float_reader"}, {"name": "strtod-based conversion", "where": I}])
prop("C15", "Pointers are read as exact hexadecimal addresses",
 "For every input, scanning a pointer with {} or {:p} reads an optional 0x prefix and hexadecimal digits after leading whitespace and yields exactly that address; overflow and malformed text are errors as for integers.",
 ["inputs"], "every input text up to the bound and hexadecimal digit strings up to 20 digits", "Tests read one pointer.", [H], [{"name": "pointer reader", "where": H + " reader_impl_for_voidptr"}])
prop("C16", "Runtime format strings are accepted exactly when they are valid",
 "For every runtime format string, a scan either treats it per the documented grammar or fails with the invalid-format-string error; argument indices out of range, mixing of automatic and manual indexing, repeated indices, unterminated fields, presentations a type does not support and empty or reversed sets are always rejected, and valid strings never are.",
 ["programs", "inputs"], "every format string up to the bound over the full byte alphabet, with several argument lists",
 "Format strings are an unbounded space; tests list a few dozen.", [S, I], [{"name": "format parser and spec checker", "where": S + " parse_format_string, parse_format_specs"}, {"name": "argument bookkeeping", "where": I + " format_handler_base"}])
prop("C17", "A scan of several fields equals the fields scanned one after another",
 "For every input, scanning several fields at once gives the same values and remaining input as scanning each field in turn on what the previous one left, with explicit indices or automatic ones; if any field fails, the whole scan fails with that field's error. The remaining range of a result is always exactly the unread suffix of the input.",
 ["inputs", "histories"], "every input up to the bound, pairs of field types and formats",
 "The state carried between fields (position, argument bookkeeping, errors) is only sampled by tests.",
 [I, S], [{"name": "format handler", "where": I + " format_handler"}, {"name": "result range", "where": S + " make_scan_result"}])
prop("C18", "Dates and times are read exactly by their conversion specifications",
 "For every input, scanning a calendar or time value with a chrono format consumes exactly the text of each conversion specification and stores exactly the fields it denotes within their documented ranges; out-of-range fields or mismatching text fail. Fields that are not mentioned keep their defaults.",
 ["inputs"], "every input up to the bound for the numeric and name conversions, several target types",
 "Tests sample one or two dates per specifier.", ["include/scn/chrono.h", I], [{"name": "tm and datetime readers", "where": I}])
prop("C19", "Containers are read element by element with the documented delimiters",
 "For every input, scanning a container reads the opening bracket, elements separated by commas and the closing bracket, yields exactly those elements in order, and leaves the rest unread; malformed lists are errors.",
 ["inputs"], "every input up to the bound for vector<int>, vector<char>, set, pair, tuple and map", "Tests sample a handful of lists.",
 ["include/scn/ranges.h"], [{"name": "range scanner", "where": "include/scn/ranges.h"}])
prop("C20", "Wide sources read the same as narrow ones",
 "For every text and format, scanning the wide version of a text with the wide version of a format gives the same values, error codes and number of consumed characters as the narrow one.",
 ["inputs", "configurations"], "every ASCII text up to the bound, several types and formats",
 "Tests rarely repeat an input for wide characters.", [H, I, "include/scn/xchar.h"], [{"name": "templates instantiated for wchar_t with separate fast paths", "where": H}])
prop("C21", "The convenience entry points equal the plain scan",
 "For every input, scan_value<T>(src) equals scanning with {}, scanning with caller-provided initial values or discard<T>() consumes the same input as the plain scan, and a custom type's scanner sees exactly the remaining input and may consume any part of it.",
 ["inputs", "histories"], "every input up to the bound, several types", "Tests call each of these once or twice.", [S, I], [{"name": "scan_value, discard, custom scanners", "where": S}])
prop("C22", "Regular expression fields match as the regex engine does, anchored at the current position",
 "For every input, a {:/regex/flags} field of a contiguous narrow source matches exactly what std::regex (ECMAScript, with the flags i and n as given, \\/ standing for /) matches anchored at the current position: a string or string_view gets the matched text and regex_matches the whole match and every group (absent where it did not take part), exactly the match is consumed and the following fields start after it; text that does not match is an invalid value. A malformed expression, unknown, repeated or unsupported flag, or a source that is not contiguous is an invalid format string. (Unspecified: whether whitespace is skipped before regex_matches, back-references into strings, expressions starting with <, > or ^, which read as a fill.)",
 ["inputs"], "every input", "Tests match a handful of texts with a handful of expressions.", [H, S, "include/scn/regex.h"], [{"name": "read_regex_string_impl, read_regex_matches_impl, parse_presentation_regex", "where": H}])
prop("C23", "Localized scanning follows the given locale's punctuation",
 "For every input and every decimal point and thousands separator of the locale given to the scan, a {:L} integer or floating-point field is read as the number obtained by dropping the thousands separators between its integral digits (when the locale groups digits) and by taking the locale's decimal point for the '.': the value, the range errors and the characters consumed follow from it, and text that is no such number is rejected as an invalid value. A {:L} bool reads exactly the locale's names of the two values (and 0 and 1 where digits are allowed). Without L, the locale changes nothing, and a custom type's scanner sees the locale given to the scan. Where separators do not each stand between two digits the outcome is unspecified (but safe).",
 ["inputs", "configurations"], "every input and locale", "Locales are configuration; tests use one or two.", [I, H], [{"name": "localized integer, float and bool readers", "where": I}])
prop("C24", "Types scanned through their operator>> behave as on a plain stream",
 "For every input and every operator>> that reads one character at a time (with look-ahead and with the last extracted character put back), a type whose scanner derives from basic_istream_scanner is scanned as the same operator>> would read it from a plain in-memory stream over the same text: the scan succeeds exactly when the operator does, with the same value, having consumed exactly the characters the operator extracted, so the next field starts there; a failure is end_of_input when the stream reached its end, invalid_source_state when it went bad, and invalid_scanned_value otherwise.",
 ["inputs"], "every input", "Only one type in tests.", ["include/scn/istream.h"], [{"name": "basic_range_streambuf and basic_istream_scanner", "where": "include/scn/istream.h"}])
TECH = "symbolic execution of the compiled library (LLVM bitcode) with SMT (Z3 QF_BV / QF_LIA)"
NOTES = {}
def main():
    import checks
    claimed = set(checks.CHECKS)
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in claimed:
            assert not p["na"], p["id"]
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": checks.CHECKS[p["id"]].get("note", "") or "bounded: every value within the stated bounds, decided by the solver; see DESIGN.md"})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "No check has been built yet."})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
