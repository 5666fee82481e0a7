#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are readable)."""
import json, os
ALL = ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs",
       "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or ["return value of encode_from_str / decode_to_str and the output buffer"],
                          "hook_needed": None}})
LOOP = {"name": "input_i / output_i", "meaning": "input consumed / output written so far inside one call", "where": "every encode_from_str / decode_to_str"}

p("C01", "UTF-8 decoding accepts exactly well-formed UTF-8",
  "Decoding UTF-8 delivers exactly the longest well-formed prefix (Unicode Table 3-7) of the input, byte for byte, and reports anything else (overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes, a cut-off character at the end of the stream) as an error that starts at the first byte of the ill-formed sequence and runs over the directly following bytes 0x80..0xBF and 0xF8..0xFF. Encoding to UTF-8 delivers the text's own bytes and never fails.",
  ["inputs"], "every byte string, every str, every buffer large enough",
  "Byte strings are unbounded; the tests sample a dozen hand-picked errors and random bytes that are ill-formed almost at once.",
  ["src/utf8.rs"], [{"name": "from_utf8 validation, truncation test, error-run scan", "where": "src/utf8.rs decode_to_str"}, {"name": "copy_len", "where": "src/utf8.rs"}], [LOOP])
p("C02", "UTF-16 decoding and encoding follow the standard",
  "For both byte orders, decoding maps every code unit outside the surrogate range to the scalar value of the same number and every high+low surrogate pair to its supplementary scalar value, and encoding is the exact inverse and never fails. An unpaired surrogate is reported as an error over its own two bytes, and a code unit or pair cut off by the end of the stream as an error over all remaining bytes; nothing else is an error.",
  ["inputs"], "all 2^16 code units, all surrogate pairs, all 1,112,064 scalar values, in any sequence, at any offset",
  "The tests use a handful of characters and random printable text, which practically never contains surrogate-range boundaries or U+FFFF/U+10000/U+10FFFF.",
  ["src/utf16_be.rs", "src/utf16_le.rs"], [{"name": "surrogate arithmetic", "where": "src/utf16_be.rs, src/utf16_le.rs"}], [LOOP])
p("C03", "UTF-32 decoding and encoding follow the standard",
  "For both byte orders, decoding maps a four-byte unit to the scalar value it holds, and encoding is the exact inverse and never fails. A unit holding a surrogate or a value above U+10FFFF is reported as an error over its own four bytes, a unit cut off by the end of the stream as an error over all remaining bytes, and nothing else is an error.",
  ["inputs"], "all 2^32 unit values, any sequence and offset",
  "2^32 values; the tests hit three invalid ones.",
  ["src/utf32_be.rs", "src/utf32_le.rs"], [{"name": "char::from_u32 check", "where": "src/utf32_be.rs, src/utf32_le.rs decode_to_str"}], [LOOP])
p("C04", "Single-byte encodings follow their published tables",
  "For each of the 31 single-byte encodings, every byte decodes to exactly the character the published table gives it, or is reported as invalid over that one byte if the table leaves it undefined. Encoding is the exact inverse: every character in the table becomes its byte, every other character is reported as unencodable, and none is substituted.",
  ["inputs", "configurations"], "31 encodings x 256 bytes x 1,112,064 characters, at any position of any text",
  "The tests exercise ascii, iso-8859-1 and iso-8859-7 only; 28 generated tables are never touched.",
  ["src/single_byte.rs", "src/generated/single_byte/"], [{"name": "DECODE_TABLE / ENCODE_TABLE with binary search", "where": "src/single_byte.rs ascii_ext_*, src/generated/single_byte/*.rs.inc"}], [LOOP])
p("C05", "Big5 (WHATWG) decodes and encodes by the WHATWG index",
  "Every byte pair decodes to the character (or one of the four base+diacritic pairs) that the WHATWG Big5 index gives it; every lead byte, pair or unassigned pointer outside it is invalid data, covering one byte when the second byte is ASCII and two when it is not (one for a bad lead or a lead cut off at the end of the stream). Every character in the index encodes to one fixed pair that decodes to it (the first pointer, except the last for U+2550, U+255E, U+2561, U+256A, U+5341, U+5345), U+00CA/U+00EA followed by U+0304/U+030C encodes as the single combined pair, and any other non-ASCII character is an error.",
  ["inputs"], "all 65,536 byte pairs, all scalar values, all character pairs, in any context",
  "The tests walk the assigned table entries separated by newlines; unassigned pairs, bad trail bytes and adjacent characters are sampled by a handful of cases.",
  ["src/big5_whatwg.rs", "src/generated/whatwg/big5_whatwg_tables.rs.inc"], [{"name": "pointer arithmetic, table lookup, map_grapheme", "where": "src/big5_whatwg.rs"}], [LOOP])
p("C06", "Shift JIS (WHATWG) decodes and encodes by the WHATWG index",
  "Every byte or byte pair decodes as WHATWG Shift JIS prescribes (0x00-0x80 as is, 0xA1-0xDF half-width katakana, the user-defined range to U+E000-U+E757, otherwise the jis0208 index); everything else is invalid data, covering one byte when the second byte is ASCII and two when it is not (one for a bad lead or a lead cut off at the end of the stream). Encoding gives each character its WHATWG bytes (first pointer outside 8272-8835; U+00A5, U+203E and U+2212 go to 0x5C, 0x7E and 0x81 0x7C), the user-defined range back to its pairs, and an error for every other character.",
  ["inputs"], "all bytes and byte pairs, all scalar values, in any context",
  "The tests walk the assigned entries separated by newlines; unassigned pairs, bad trails, the user-defined range and half-width runs are sampled by single cases.",
  ["src/shiftjis_whatwg.rs", "src/generated/whatwg/shiftjis_whatwg_tables.rs.inc"], [{"name": "special cases 1-5, pointer arithmetic, table lookup", "where": "src/shiftjis_whatwg.rs"}], [LOOP])
p("C07", "Encoding then decoding gives the text back",
  "For every encoding, whatever encode_from_str encodes without error decodes, without error, to exactly the original text: an encoder either represents text losslessly or reports an error, unless its module documents otherwise.",
  ["inputs", "configurations"], "every str, every encoding, every split of the work over calls",
  "Round trips are tested for the UTF encodings with random printable text and for two single-byte tables; Big5, Shift JIS and 29 single-byte encodings have none.",
  ALL, [{"name": "paired encode/decode tables", "where": "src/generated/"}, {"name": "documented promise", "where": "src/lib.rs Round-trip Conversions"}], [LOOP])
p("C08", "Output is always valid in the target encoding",
  "The str a decoder returns is always well-formed UTF-8, the bytes an encoder returns are always a decodable sequence of whole characters of the target encoding, and both lie at the very start of the caller's buffer; on error the same holds for the first output_bytes_written bytes of the buffer.",
  ["inputs"], "every input, buffer size and is_end value, success and error paths",
  "The str is built with from_utf8_unchecked; an ill-formed one is undefined behaviour that no assertion in the tests looks for.",
  ALL, [{"name": "from_utf8_unchecked over output[..output_i]", "where": "every decode_to_str"}, {"name": "from_u32_unchecked", "where": "src/utf16_be.rs, src/utf16_le.rs"}], [LOOP])
p("C09", "Every call returns, within its buffers",
  "For any input and any output buffer, including empty ones, and either is_end value, a call returns Ok or Err: it does not panic, abort, hang, read outside the input or write outside the buffer, and every count and range it reports lies within the input and the buffer.",
  ["inputs"], "every encoding, direction, input, buffer length from 0 up, is_end",
  "The random tests use one large buffer and printable or random data; panics that need a small buffer at a particular offset are out of their reach.",
  ALL, [{"name": "bounds tests before each write", "where": "every encode_from_str / decode_to_str"}], [LOOP])
p("C10", "Decoding does not depend on how the input is chunked",
  "Feeding a byte stream to a decoder in chunks split anywhere (even inside a character), with output buffers of any sizes from 4 bytes up, carrying unconsumed bytes over to the next call and setting is_end only with the last chunk, yields the same text and the same first error position as decoding the whole stream in one call.",
  ["histories", "inputs"], "every byte stream, every division into chunks, every sequence of buffer sizes",
  "The number of divisions is exponential in the length; the tests split only by output buffer and never in the input.",
  ALL, [{"name": "incomplete tail left unconsumed when !is_end", "where": "every decode_to_str"}, {"name": "consumed count", "where": "every decode_to_str"}],
  [LOOP, {"name": "is_end", "meaning": "caller's statement that no more input follows", "where": "decode_to_str parameter"}])
p("C11", "Encoding does not depend on how the text is chunked",
  "Feeding text to an encoder in chunks split at any character boundary, with output buffers of any sizes from 4 bytes up, carrying unconsumed text over to the next call and (for Big5) setting is_end only with the last chunk, yields the same bytes and the same first unencodable character and position as encoding the whole text in one call.",
  ["histories", "inputs"], "every text, every division into chunks, every sequence of buffer sizes",
  "The tests split only by one fixed buffer size; the Big5 look-ahead across chunks is covered by single-call cases.",
  ALL, [{"name": "Big5 grapheme look-ahead with is_end", "where": "src/big5_whatwg.rs encode_from_str"}, {"name": "consumed count", "where": "every encode_from_str"}],
  [LOOP, {"name": "is_end", "meaning": "caller's statement that no more text follows", "where": "big5_whatwg::encode_from_str parameter"}])
p("C12", "A full buffer stops a call at the last whole character that fits",
  "When the output buffer is too small, a call writes exactly the output of the longest run of leading characters that fits (never part of a character, never fewer than fit) and reports as consumed exactly the input bytes of that run; when encoding, the count falls on a character boundary.",
  ["inputs"], "every input and every buffer length, all encodings and both directions",
  "The tests try about three buffer lengths per encoding on one string.",
  ALL, [{"name": "fit test before each write, break", "where": "every encode_from_str / decode_to_str"}, {"name": "is_char_boundary rounding", "where": "every encode_from_str"}, {"name": "copy_len", "where": "src/utf8.rs"}], [LOOP])
p("C13", "Encode errors identify the unencodable character exactly",
  "An encode error is returned only for a character the target encoding cannot represent, and for the first such one: it names that character and its exact byte range in the input, and output_bytes_written is the length of the complete encoding of everything before it, which is in the buffer. If the buffer still has room for any character of the encoding when the first unencodable character is reached, the error is returned.",
  ["inputs"], "every text, position of the bad character and buffer length",
  "The tests place one emoji at two positions.",
  ["src/single_byte.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], [{"name": "EncodeError construction", "where": "encode_from_str in src/single_byte.rs, src/big5_whatwg.rs, src/shiftjis_whatwg.rs"}], [LOOP])
p("C14", "Decode errors report everything before them faithfully",
  "A decode error is returned only if the input holds invalid data (or, with is_end, an incomplete tail), and for the first such place: the error range is non-empty and begins exactly there, output_bytes_written is the length of the complete decoding of everything before it, which is in the buffer, and the cause is InvalidData. If the buffer still has room for any character when that place is reached, the error is returned.",
  ["inputs"], "every byte string, error position and kind, buffer length and is_end",
  "The tests place an error at about two positions of one string.",
  ALL, [{"name": "DecodeError construction", "where": "every decode_to_str"}], [LOOP])
p("C15", "Skipping an error range resumes at the next valid character",
  "A client that skips each reported error range and continues decoding recovers every valid character that follows: no error range ever covers a byte of a validly encoded character or separator that follows the invalid data, and the recovered text and the set of skipped bytes do not depend on chunking or buffer sizes.",
  ["inputs", "histories"], "every byte string with any number of errors, every chunking",
  "No test continues after an error.",
  ALL, [{"name": "error_range end", "where": "every decode_to_str"}, {"name": "error-run scan and truncation test", "where": "src/utf8.rs"}], [LOOP])
p("C16", "A streaming client always makes progress and terminates",
  "With an output buffer of at least 4 bytes, every call on non-empty input consumes something or reports an error, except that with is_end false it may consume nothing when the whole remaining input is an incomplete character; so a loop that feeds input, drains, and skips or substitutes errors ends after finitely many calls with all input accounted for.",
  ["histories", "inputs"], "every input, chunking and sequence of buffer sizes >= 4",
  "Liveness over histories: the tests' drain loops run on valid data only.",
  ALL, [{"name": "largest unit is 4 bytes in every encoding", "where": "src/"}, {"name": "incomplete tail handling", "where": "every decode_to_str; src/big5_whatwg.rs encode_from_str"}], [LOOP])
p("C17", "is_end decides only the fate of an incomplete tail",
  "With is_end false an incomplete character at the end of the input is left unconsumed and is no error, and with is_end true it is an error covering the whole incomplete tail (in UTF-8, incomplete means a lead byte with fewer continuation bytes than it announces; for Big5 encoding: a final U+00CA or U+00EA is left unconsumed or encoded alone). In every other respect the result of a call is the same for both values of is_end.",
  ["inputs"], "every input and every truncation point, all buffer lengths",
  "The tests chop the last bytes off one string per encoding.",
  ALL, [{"name": "is_end branches", "where": "decode_to_str in utf8, utf16_*, utf32_*, big5_whatwg, shiftjis_whatwg; big5_whatwg::encode_from_str"}], [LOOP])
p("C18", "Calls are pure: only input, buffer length and is_end matter",
  "The result of a call depends on nothing but the input, the length of the output buffer and is_end: not on earlier calls of this or any other encoding, on calls made at the same time by other threads, on what the buffer contained before, or on where in memory the data lies.",
  ["histories", "schedules", "inputs"], "every history and interleaving of calls, every prior buffer content",
  "Each test makes one or two calls with a zeroed buffer on one thread.",
  ALL, [{"name": "no static state; buffer written before it is read", "where": "every encode_from_str / decode_to_str"}], [LOOP])
p("C19", "ASCII passes through and is never swallowed",
  "In UTF-8, Big5, Shift JIS and every single-byte encoding each ASCII character encodes to its own byte and each ASCII byte that is not the trail byte of a valid pair decodes to its own character, in any context. In these encodings a reported error range contains no ASCII byte, so malformed lead bytes can never hide markup or delimiters that follow.",
  ["inputs"], "every ASCII byte after every context of bytes, both is_end values",
  "A security property over all contexts; the tests contain three such byte pairs.",
  ["src/utf8.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"], [{"name": "ASCII branch and error range ends", "where": "src/big5_whatwg.rs, src/shiftjis_whatwg.rs, src/utf8.rs, src/single_byte.rs"}], [LOOP])
p("C20", "Big- and little-endian variants mirror each other",
  "For UTF-16 and for UTF-32, reversing the bytes of every code unit of the input turns a little-endian decode into the big-endian one with the same result, and the little-endian encoding of a text is the big-endian one with the bytes of every code unit reversed, with identical counts, errors and ranges for equal buffers.",
  ["inputs"], "every unit-aligned byte string or text, buffer length and is_end",
  "The two variants are separate copies of the code, tested separately on one string.",
  ["src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs"], [{"name": "from_be_bytes / from_le_bytes twins", "where": "src/utf16_*.rs, src/utf32_*.rs"}], [LOOP])
p("C21", "Decoding then encoding gives canonical, equivalent bytes",
  "Text obtained by decoding can always be encoded again without error in the same encoding: for the UTF and single-byte encodings this gives back the very bytes that were decoded, and for Big5 and Shift JIS it gives bytes of one canonical form that decode to the same text.",
  ["inputs"], "every validly encoded byte string of every encoding",
  "Tested for ascii, iso-8859-1 and iso-8859-7 only; duplicates in the multi-byte indexes make this a fact about tables and algorithm together.",
  ALL, [{"name": "duplicate resolution in ENCODE_TABLE", "where": "src/generated/"}], [LOOP])
p("C22", "Skipping an unencodable character resumes with the next one",
  "A client that skips or replaces each reported unencodable character and continues encoding behind it represents every other character, in order: the bytes delivered are those of the text with exactly the unencodable characters left out, and neither they nor the set of characters reported depends on chunking or buffer sizes.",
  ["inputs", "histories"], "every text with any number of unencodable characters, every chunking and sequence of buffer sizes",
  "No test continues after an encode error.",
  ["src/single_byte.rs", "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs"], [{"name": "EncodeError error_range and output_bytes_written", "where": "encode_from_str in src/single_byte.rs, src/big5_whatwg.rs, src/shiftjis_whatwg.rs"}, {"name": "grapheme look-ahead before an unencodable character", "where": "src/big5_whatwg.rs"}], [LOOP])
p("C23", "More room or more input never revises what was delivered",
  "With a larger output buffer for the same call, or with more input appended to a call made with is_end false, a call consumes at least as much and its output begins with the earlier output. Where the earlier call reported an error, the later one delivers and consumes no more than that; if it is made with is_end true and has room for any character left there it reports an error too, and an error it reports is the same one (same start, character and cause, and for equal input the same range). Output delivered earlier is never turned into an error.",
  ["inputs"], "every input and extension of it, every pair of buffer lengths, all encodings and both directions",
  "A relation between pairs of calls; no test compares two calls.",
  ALL, [{"name": "fit test before each write", "where": "every encode_from_str / decode_to_str"}, {"name": "incomplete tail handling", "where": "every decode_to_str; src/big5_whatwg.rs encode_from_str"}], [LOOP])
p("C24", "Transcoding in pieces equals transcoding in one go",
  "Decoding a stream chunk by chunk from one encoding and encoding the text into another as it arrives, with buffers of any sizes from 4 bytes up in both stages and leftovers carried over in both, delivers the same bytes, and stops at the same undecodable place or unencodable character, as one whole decode followed by one whole encode; and it always ends.",
  ["histories", "inputs", "configurations"], "every pair of encodings, every input, every division into chunks, every sequence of buffer sizes in both stages",
  "No test connects a decoder to an encoder over more than one buffer.",
  ALL, [{"name": "consumed counts, output length, leftovers", "where": "every encode_from_str / decode_to_str"}, {"name": "Big5 grapheme pairs produced by one decode and consumed by another encode", "where": "src/big5_whatwg.rs"}], [LOOP])
p("C25", "Encoded texts can be joined",
  "Joining the encodings of two texts gives bytes that decode to the joined text, and these are the very bytes the joined text encodes to: no byte order mark, terminator or context leaks from one text into the next. The one exception is Big5 when one text ends with U+00CA or U+00EA and the next begins with U+0304 or U+030C: the bytes still decode to the joined text, which by itself encodes to the combined pair.",
  ["inputs"], "every pair of texts (encoded as far as the encoding can represent them), every encoding",
  "A relation between three calls on arbitrary texts; no test concatenates outputs.",
  ALL, [{"name": "every unit is encoded and decoded without context", "where": "every encode_from_str / decode_to_str"}, {"name": "map_grapheme", "where": "src/big5_whatwg.rs"}], [LOOP])
p("C26", "Nothing but an incomplete character is held back",
  "A call that returns without an error and leaves at least 4 bytes of its buffer unused (or was given a buffer of four times the input's length) has consumed all of its input, except that with is_end false it may leave an incomplete character at the very end: at most 3 bytes when decoding UTF-8, UTF-16 or UTF-32, 1 byte when decoding Big5 or Shift JIS, and a final U+00CA or U+00EA when encoding Big5. So a client can carry leftovers over in a buffer of fixed size, and can size an output buffer so that one call is enough.",
  ["inputs"], "every input, buffer length and is_end value, all encodings and both directions",
  "A bound over all inputs; the tests leave one leftover per encoding.",
  ALL, [{"name": "loops end only for lack of room or at an incomplete tail", "where": "every encode_from_str / decode_to_str"}], [LOOP])
p("C27", "What came before only shifts a call",
  "If a call made with is_end false consumes all of a piece of input p without an error, then for any further input s the call on p followed by s, with an output buffer longer by what p delivers, returns what the call on s alone returns: the output preceded by that of p, and the counts and the error range moved by the length of p. No shift state, byte order mark or position carries meaning from one character to the next, so a client may start, cut or resume a text at any character.",
  ["inputs"], "every piece of whole characters, every input behind it, every buffer length and is_end value, all encodings and both directions",
  "A relation between three calls; no test compares a character's result at different positions.",
  ALL, [{"name": "every unit is converted without context", "where": "every encode_from_str / decode_to_str"}, {"name": "offsets added to error ranges and counts", "where": "every encode_from_str / decode_to_str"}], [LOOP])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
