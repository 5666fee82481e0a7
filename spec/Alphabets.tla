----------------------------- MODULE Alphabets ------------------------------
(* Small alphabets of bytes / scalars, chosen so that every branch of Codec  *)
(* is reached by short strings over them.                                    *)
EXTENDS Codec

DecAlpha(enc) ==
  CASE enc = "utf8"     -> {65, 128, 143, 144, 159, 160, 191, 193, 195, 224, 227, 237, 240, 241, 244, 245, 255}
    [] enc = "utf16_be" -> {0, 65, 216, 219, 220, 223, 224}
    [] enc = "utf16_le" -> {0, 65, 216, 219, 220, 223, 224}
    [] enc = "utf32_be" -> {0, 1, 16, 17, 65, 216, 224}
    [] enc = "utf32_le" -> {0, 1, 16, 17, 65, 216, 224}
    [] enc = "big5_whatwg" -> {64, 65, 98, 102, 126, 127, 128, 129, 136, 160, 161, 163, 164, 181, 254, 255}
    [] enc = "shiftjis_whatwg" -> {64, 92, 127, 128, 129, 133, 141, 160, 161, 223, 224, 240, 249, 252, 253}
    [] OTHER -> {0, 65, 127, 128, 161, 164, 174, 210, 225, 255}

EncAlpha(enc) ==
  CASE enc \in UtfNames -> {65, 128, 2047, 2048, 20170, 55295, 57344, 65533, 65535, 65536, 128570, 1114111}
    [] enc = "big5_whatwg" -> {65, 128, 202, 234, 772, 780, 20170, 9552, 21313, 65533, 128570}
    [] enc = "shiftjis_whatwg" -> {65, 92, 128, 165, 8254, 8722, 65293, 65377, 65439, 57344, 59223, 59224, 20170, 128570}
    [] OTHER -> {65, 127, 128, 165, 233, 945, 1078, 8364, 20170, 128570}

Alpha(enc, dir) == IF dir = "dec" THEN DecAlpha(enc) ELSE EncAlpha(enc)

\* What the bounded models grow their sources by: single elements, and for the
\* multi-byte code units of UTF-16 and UTF-32 whole units as well.
Pieces(enc, dir) ==
  IF dir = "enc" THEN {<<x>> : x \in EncAlpha(enc)}
  ELSE CASE enc = "utf16_be" -> {<<0, 65>>, <<216, 61>>, <<222, 58>>, <<224, 0>>, <<48>>, <<219>>, <<220>>}
         [] enc = "utf16_le" -> {<<65, 0>>, <<61, 216>>, <<58, 222>>, <<0, 224>>, <<48>>, <<219>>, <<220>>}
         [] enc = "utf32_be" -> {<<0, 0, 0, 65>>, <<0, 16, 255, 255>>, <<0, 0, 216, 0>>, <<0, 17, 0, 0>>, <<0>>, <<0, 1>>, <<255>>}
         [] enc = "utf32_le" -> {<<65, 0, 0, 0>>, <<255, 255, 16, 0>>, <<0, 216, 0, 0>>, <<0, 0, 17, 0>>, <<0>>, <<1, 0>>, <<255>>}
         [] OTHER            -> {<<x>> : x \in DecAlpha(enc)}

\* How many pieces a bounded model's source has.
Depth(enc, dir) == IF dir = "dec" /\ enc = "utf8" THEN 3 ELSE 2

\* Encodings in which ASCII stands for itself.
AsciiNames == Encodings \ {"utf16_be", "utf16_le", "utf32_be", "utf32_le"}

\* Texts that the Shift JIS encoder changes (see known_findings.txt).
KnownLossy(enc, c) == enc = "shiftjis_whatwg" /\ c \in {165, 8254, 8722}
=============================================================================
