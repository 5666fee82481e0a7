------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* What the 38 encodings of cessen/text_encoding mean, one character        *)
(* ("unit") at a time.  Everything else -- calls with bounded buffers,      *)
(* streams, errors -- is built on the two operators                         *)
(*                                                                          *)
(*    DecUnits(enc, bytes, isEnd)   what a decoder may see at the head of   *)
(*                                  `bytes` (a non-empty sequence of 0..255)*)
(*    EncUnits(enc, cps, isEnd)     what an encoder may see at the head of  *)
(*                                  `cps` (a non-empty sequence of scalars) *)
(*                                                                          *)
(* each of which yields a non-empty set of outcomes                         *)
(*                                                                          *)
(*    [k |-> "emit", n |-> units consumed, out |-> sequence produced]       *)
(*    [k |-> "err",  n |-> length of the error range, out |-> <<>>]         *)
(*    [k |-> "wait", n |-> 0, out |-> <<>>]   incomplete, more is needed    *)
(*                                                                          *)
(* The set has one element except where the documentation leaves a choice   *)
(* (see MayErrEarly).  The UTF encodings are defined by *segments*: boxes   *)
(* of byte ranges that map, in positional notation, onto an interval of     *)
(* scalar values.  The table encodings are defined by the WHATWG / unicode  *)
(* tables under data/.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, TLC

SBTab   == JsonDeserialize("data/single_byte.json")  \* name -> 128 scalars or -1
Big5Tab == JsonDeserialize("data/big5.json")         \* pointer+1 -> scalar or -1
SjisTab == JsonDeserialize("data/sjis.json")         \* pointer+1 -> scalar or -1

SBNames   == DOMAIN SBTab
UtfNames  == {"utf8", "utf16_be", "utf16_le", "utf32_be", "utf32_le"}
Encodings == UtfNames \cup {"big5_whatwg", "shiftjis_whatwg"} \cup SBNames

\* Which functions of the API take an is_end parameter.  Where there is none
\* the outcome must not depend on it, so the spec always passes TRUE.
HasEnd(enc, dir) == IF dir = "dec" THEN enc \notin SBNames ELSE enc = "big5_whatwg"

Emit(n, out) == [k |-> "emit", n |-> n, out |-> out]
Err(n)       == [k |-> "err",  n |-> n, out |-> <<>>]
Wait         == [k |-> "wait", n |-> 0, out |-> <<>>]

-----------------------------------------------------------------------------
(* Segments *)

R(lo, hi) == <<lo, hi>>
Byte       == R(0, 255)
Cont      == R(128, 191)
Seg(pat, base, w) == [pat |-> pat, base |-> base, w |-> w]

Utf8Segs ==
  << Seg(<<R(0,127)>>,                                0,       <<1>>),
     Seg(<<R(194,223), Cont>>,                        128,     <<64, 1>>),
     Seg(<<R(224,224), R(160,191), Cont>>,            2048,    <<8192, 64, 1>>),
     Seg(<<R(225,236), Cont, Cont>>,                  4096,    <<4096, 64, 1>>),
     Seg(<<R(237,237), R(128,159), Cont>>,            53248,   <<4096, 64, 1>>),
     Seg(<<R(238,239), Cont, Cont>>,                  57344,   <<4096, 64, 1>>),
     Seg(<<R(240,240), R(144,191), Cont, Cont>>,      65536,   <<262144, 4096, 64, 1>>),
     Seg(<<R(241,243), Cont, Cont, Cont>>,            262144,  <<262144, 4096, 64, 1>>),
     Seg(<<R(244,244), R(128,143), Cont, Cont>>,      1048576, <<262144, 4096, 64, 1>>) >>

Utf16beSegs ==
  << Seg(<<R(0,215),   Byte>>,                         0,       <<256, 1>>),
     Seg(<<R(224,255), Byte>>,                         57344,   <<256, 1>>),
     Seg(<<R(216,219), Byte, R(220,223), Byte>>,        65536,   <<262144, 1024, 256, 1>>) >>

Utf32beSegs ==
  << Seg(<<R(0,0), R(0,0),  R(0,215),   Byte>>,        0,       <<1, 1, 256, 1>>),
     Seg(<<R(0,0), R(0,0),  R(224,255), Byte>>,        57344,   <<1, 1, 256, 1>>),
     Seg(<<R(0,0), R(1,16), Byte,        Byte>>,        65536,   <<1, 65536, 256, 1>>) >>

\* Little-endian segments: the bytes of every code unit reversed.
RevUnits(s, u) == [i \in 1..Len(s) |-> s[(((i - 1) \div u) * u) + (u - ((i - 1) % u))]]
RevSegs(segs, u) == [i \in 1..Len(segs) |->
                       Seg(RevUnits(segs[i].pat, u), segs[i].base, RevUnits(segs[i].w, u))]

Utf16leSegs == RevSegs(Utf16beSegs, 2)
Utf32leSegs == RevSegs(Utf32beSegs, 4)

Segs(enc) == CASE enc = "utf8"     -> Utf8Segs
               [] enc = "utf16_be" -> Utf16beSegs
               [] enc = "utf16_le" -> Utf16leSegs
               [] enc = "utf32_be" -> Utf32beSegs
               [] enc = "utf32_le" -> Utf32leSegs

InR(b, r) == r[1] <= b /\ b <= r[2]
\* pat matches the first Len(pat) elements of bytes
MatchHead(pat, bytes) == /\ Len(bytes) >= Len(pat)
                         /\ \A i \in 1..Len(pat) : InR(bytes[i], pat[i])
\* bytes is a proper prefix of some match of pat
MatchPart(pat, bytes) == /\ Len(bytes) < Len(pat)
                         /\ \A i \in 1..Len(bytes) : InR(bytes[i], pat[i])

RECURSIVE SumTo(_, _, _)
SumTo(s, bytes, i) == IF i = 0 THEN s.base
                      ELSE SumTo(s, bytes, i - 1) + s.w[i] * (bytes[i] - s.pat[i][1])
SegDecode(s, bytes) == SumTo(s, bytes, Len(s.pat))
Size(r) == r[2] - r[1] + 1
RECURSIVE SegSize(_, _)
SegSize(s, i) == IF i = 0 THEN 1 ELSE SegSize(s, i - 1) * Size(s.pat[i])
SegHas(s, c) == s.base <= c /\ c < s.base + SegSize(s, Len(s.pat))
SegEncode(s, c) == [i \in 1..Len(s.pat) |->
                      s.pat[i][1] + (((c - s.base) \div s.w[i]) % Size(s.pat[i]))]

Scalar(c) == (0 <= c /\ c <= 55295) \/ (57344 <= c /\ c <= 1114111)

SegOf(enc, c) == LET S == Segs(enc) IN S[CHOOSE i \in 1..Len(S) : SegHas(S[i], c)]
Utf8Of(c)  == SegEncode(SegOf("utf8", c), c)
Utf8Len(c) == CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4
RECURSIVE Utf8Str(_)
Utf8Str(cps) == IF cps = <<>> THEN <<>> ELSE Utf8Of(Head(cps)) \o Utf8Str(Tail(cps))
RECURSIVE Utf8Size(_)
Utf8Size(cps) == IF cps = <<>> THEN 0 ELSE Utf8Len(Head(cps)) + Utf8Size(Tail(cps))

-----------------------------------------------------------------------------
(* Ill-formed and incomplete input of the UTF encodings *)

IsCont(b) == 128 <= b /\ b <= 191
\* Bytes an UTF-8 error range runs on over.
RunByte(b) == IsCont(b) \/ b >= 248
RECURSIVE RunLen(_, _)
RunLen(bytes, i) == IF i <= Len(bytes) /\ RunByte(bytes[i]) THEN RunLen(bytes, i + 1) ELSE i - 1

\* How many bytes an UTF-8 lead byte announces (0: not a lead byte).
Announced(b) == CASE 192 <= b /\ b <= 223 -> 2
                  [] 224 <= b /\ b <= 239 -> 3
                  [] 240 <= b /\ b <= 247 -> 4
                  [] OTHER -> 0
Cut8(bytes) == /\ Len(bytes) < Announced(bytes[1])
               /\ \A i \in 2..Len(bytes) : IsCont(bytes[i])
\* Cut off, and already certain never to become well-formed: a decoder that is
\* not at the end may report it now or later; the range is the same.
MayErrEarly(bytes) == ~ \E i \in 1..Len(Utf8Segs) : MatchPart(Utf8Segs[i].pat, bytes)

Utf8Other(bytes, isEnd) ==
  IF Cut8(bytes) /\ ~isEnd
  THEN {Wait} \cup (IF MayErrEarly(bytes) THEN {Err(RunLen(bytes, 2))} ELSE {})
  ELSE {Err(RunLen(bytes, 2))}

HiByte(enc, bytes, i) == IF enc = "utf16_be" THEN bytes[i] ELSE bytes[i + 1]
Utf16Other(enc, bytes, isEnd) ==
  LET high == Len(bytes) >= 2 /\ InR(HiByte(enc, bytes, 1), R(216, 219))
      cut  == Len(bytes) < 2 \/ (high /\ Len(bytes) < 4)
  IN  IF cut THEN (IF isEnd THEN {Err(Len(bytes))} ELSE {Wait}) ELSE {Err(2)}

Utf32Other(bytes, isEnd) ==
  IF Len(bytes) < 4 THEN (IF isEnd THEN {Err(Len(bytes))} ELSE {Wait}) ELSE {Err(4)}

DecUtf(enc, bytes, isEnd) ==
  LET S == Segs(enc)
      M == {i \in 1..Len(S) : MatchHead(S[i].pat, bytes)}
  IN  IF M # {}
      THEN LET s == S[CHOOSE i \in M : TRUE] IN {Emit(Len(s.pat), <<SegDecode(s, bytes)>>)}
      ELSE CASE enc = "utf8" -> Utf8Other(bytes, isEnd)
             [] enc \in {"utf16_be", "utf16_le"} -> Utf16Other(enc, bytes, isEnd)
             [] OTHER -> Utf32Other(bytes, isEnd)

-----------------------------------------------------------------------------
(* Table encodings: decoding *)

DecSB(enc, bytes) ==
  LET b == bytes[1] IN
  IF b < 128 THEN {Emit(1, <<b>>)}
  ELSE LET c == SBTab[enc][b - 127] IN IF c >= 0 THEN {Emit(1, <<c>>)} ELSE {Err(1)}

\* An undefined or malformed pair: the second byte stays in the stream when it
\* is ASCII.
BadPair(t) == Err(IF t < 128 THEN 1 ELSE 2)

Graphemes == << <<1133, <<202, 772>>>>, <<1135, <<202, 780>>>>,
                <<1164, <<234, 772>>>>, <<1166, <<234, 780>>>> >>
Big5Ptr(l, t)   == (l - 129) * 157 + (IF t < 127 THEN t - 64 ELSE t - 98)
Big5Bytes(p)    == LET t == p % 157 IN
                   << (p \div 157) + 129, IF t < 63 THEN t + 64 ELSE t + 98 >>
Big5TrailOk(t)  == (64 <= t /\ t <= 126) \/ (161 <= t /\ t <= 254)
DecBig5(bytes, isEnd) ==
  LET l == bytes[1] IN
  IF l < 128 THEN {Emit(1, <<l>>)}
  ELSE IF l = 128 \/ l = 255 THEN {Err(1)}
  ELSE IF Len(bytes) = 1 THEN (IF isEnd THEN {Err(1)} ELSE {Wait})
  ELSE LET t == bytes[2] IN
       IF ~Big5TrailOk(t) THEN {BadPair(t)}
       ELSE LET p == Big5Ptr(l, t)
                g == {i \in 1..4 : Graphemes[i][1] = p}
            IN  IF g # {} THEN {Emit(2, Graphemes[CHOOSE i \in g : TRUE][2])}
                ELSE IF Big5Tab[p + 1] >= 0 THEN {Emit(2, <<Big5Tab[p + 1]>>)}
                ELSE {BadPair(t)}

EudcFirst == 8836
EudcLast  == 10715
SjisPtr(l, t)  == (l - (IF l < 160 THEN 129 ELSE 193)) * 188 + t - (IF t < 127 THEN 64 ELSE 65)
SjisBytes(p)   == LET l == p \div 188  t == p % 188 IN
                  << l + (IF l < 31 THEN 129 ELSE 193), t + (IF t < 63 THEN 64 ELSE 65) >>
SjisLead(b)    == (129 <= b /\ b <= 159) \/ (224 <= b /\ b <= 252)
SjisTrailOk(t) == 64 <= t /\ t <= 252 /\ t # 127
DecSjis(bytes, isEnd) ==
  LET l == bytes[1] IN
  IF l <= 128 THEN {Emit(1, <<l>>)}
  ELSE IF 161 <= l /\ l <= 223 THEN {Emit(1, <<65377 + l - 161>>)}
  ELSE IF ~SjisLead(l) THEN {Err(1)}
  ELSE IF Len(bytes) = 1 THEN (IF isEnd THEN {Err(1)} ELSE {Wait})
  ELSE LET t == bytes[2] IN
       IF ~SjisTrailOk(t) THEN {BadPair(t)}
       ELSE LET p == SjisPtr(l, t)
            IN  IF EudcFirst <= p /\ p <= EudcLast THEN {Emit(2, <<57344 + p - EudcFirst>>)}
                ELSE IF SjisTab[p + 1] >= 0 THEN {Emit(2, <<SjisTab[p + 1]>>)}
                ELSE {BadPair(t)}

DecUnits(enc, bytes, isEnd) ==
  CASE enc \in UtfNames           -> DecUtf(enc, bytes, isEnd)
    [] enc = "big5_whatwg"        -> DecBig5(bytes, isEnd)
    [] enc = "shiftjis_whatwg"    -> DecSjis(bytes, isEnd)
    [] OTHER                      -> DecSB(enc, bytes)

-----------------------------------------------------------------------------
(* Table encodings: encoding.  The encoder tables are sorted sequences of   *)
(* <<scalar, pointer or byte>>, searched by bisection.                      *)

Before(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(tab)   == SetToSortSeq({<<tab[i], i - 1>> : i \in {j \in 1..Len(tab) : tab[j] >= 0}}, Before)
\* Keep one pointer per scalar: the last for scalars in lastOf, else the first.
Dedup(s, lastOf) ==
  LET keep(i) == IF s[i][1] \in lastOf
                 THEN i = Len(s) \/ s[i + 1][1] # s[i][1]
                 ELSE i = 1 \/ s[i - 1][1] # s[i][1]
  IN  SelectSeq([i \in 1..Len(s) |-> IF keep(i) THEN s[i] ELSE <<-1, 0>>], LAMBDA x : x[1] >= 0)

\* The crate keeps the Hong Kong pointers (below 5024) that the WHATWG encoder
\* leaves out; its own test data pins that.
Big5Enc == Dedup(Sorted(Big5Tab), {9552, 9566, 9569, 9578, 21313, 21317})
SjisEnc == Dedup(Sorted([i \in 1..Len(SjisTab) |->
                           IF 8272 <= i - 1 /\ i - 1 <= 8835 THEN -1 ELSE SjisTab[i]]), {})
SBEnc   == [e \in SBNames |-> Sorted(SBTab[e])]

RECURSIVE Bisect(_, _, _, _)
\* index of the entry for c in s[lo..hi], or 0
Bisect(s, c, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == (lo + hi) \div 2 IN
       IF s[m][1] = c THEN m
       ELSE IF s[m][1] < c THEN Bisect(s, c, m + 1, hi)
       ELSE Bisect(s, c, lo, m - 1)
Find(s, c) == LET i == Bisect(s, c, 1, Len(s)) IN IF i = 0 THEN -1 ELSE s[i][2]

EncSB(enc, cps) ==
  LET c == Head(cps) IN
  IF c < 128 THEN {Emit(1, <<c>>)}
  ELSE LET b == Find(SBEnc[enc], c) IN IF b >= 0 THEN {Emit(1, <<b + 128>>)} ELSE {Err(1)}

\* Scalars that may start a combined pair, and what they combine to.
PairStart(c) == c \in {202, 234}
PairPtr(a, b) == LET g == {i \in 1..4 : Graphemes[i][2] = <<a, b>>} IN
                 IF g = {} THEN -1 ELSE Graphemes[CHOOSE i \in g : TRUE][1]
EncBig5(cps, isEnd) ==
  LET c == Head(cps) IN
  IF c < 128 THEN {Emit(1, <<c>>)}
  ELSE IF PairStart(c) /\ Len(cps) = 1 /\ ~isEnd THEN {Wait}
  ELSE IF PairStart(c) /\ Len(cps) > 1 /\ PairPtr(c, cps[2]) >= 0
       THEN {Emit(2, Big5Bytes(PairPtr(c, cps[2])))}
  ELSE LET p == Find(Big5Enc, c) IN IF p >= 0 THEN {Emit(1, Big5Bytes(p))} ELSE {Err(1)}

EncSjis(cps) ==
  LET c == Head(cps) IN
  IF c <= 128 THEN {Emit(1, <<c>>)}
  ELSE IF c = 165  THEN {Emit(1, <<92>>)}
  ELSE IF c = 8254 THEN {Emit(1, <<126>>)}
  ELSE IF 65377 <= c /\ c <= 65439 THEN {Emit(1, <<c - 65377 + 161>>)}
  ELSE IF 57344 <= c /\ c <= 57344 + EudcLast - EudcFirst
       THEN {Emit(1, SjisBytes(c - 57344 + EudcFirst))}
  ELSE LET p == Find(SjisEnc, IF c = 8722 THEN 65293 ELSE c)
       IN  IF p >= 0 THEN {Emit(1, SjisBytes(p))} ELSE {Err(1)}

EncUnits(enc, cps, isEnd) ==
  CASE enc \in UtfNames           -> {Emit(1, LET c == Head(cps) IN SegEncode(SegOf(enc, c), c))}
    [] enc = "big5_whatwg"        -> EncBig5(cps, isEnd)
    [] enc = "shiftjis_whatwg"    -> EncSjis(cps)
    [] OTHER                      -> EncSB(enc, cps)

-----------------------------------------------------------------------------
(* Direction-independent view: the source is a sequence of bytes (dec) or    *)
(* scalars (enc); the sink is always a sequence of bytes; positions in an    *)
(* encoder's input are counted in UTF-8 bytes, as the API does.              *)

Units(enc, dir, rest, isEnd) ==
  IF dir = "dec" THEN DecUnits(enc, rest, isEnd \/ ~HasEnd(enc, dir))
                 ELSE EncUnits(enc, rest, isEnd \/ ~HasEnd(enc, dir))
Sink(dir, out) == IF dir = "dec" THEN Utf8Str(out) ELSE out
SrcSize(dir, s) == IF dir = "dec" THEN Len(s) ELSE Utf8Size(s)

\* Size of the largest output a single unit can produce.
MaxUnit(enc, dir) ==
  IF dir = "dec" THEN 4
  ELSE CASE enc \in UtfNames -> 4
         [] enc \in {"big5_whatwg", "shiftjis_whatwg"} -> 2
         [] OTHER -> 1

Drop(s, n) == SubSeq(s, n + 1, Len(s))

\* The whole source in one go, skipping every error range: the output text,
\* and the skipped ranges as positions (in elements of the source).
RECURSIVE RefFrom(_, _, _, _, _)
RefFrom(enc, dir, src, pos, acc) ==
  IF pos = Len(src) THEN acc
  ELSE LET us == Units(enc, dir, Drop(src, pos), TRUE)
           u  == CHOOSE x \in us : TRUE
       IN  IF u.k = "emit"
           THEN RefFrom(enc, dir, src, pos + u.n,
                        [acc EXCEPT !.out = @ \o Sink(dir, u.out)])
           ELSE RefFrom(enc, dir, src, pos + u.n,
                        [acc EXCEPT !.bad = @ \cup {pos + i : i \in 0..(u.n - 1)},
                                    !.errs = Append(@, <<pos, pos + u.n, Len(acc.out)>>)])
Ref(enc, dir, src) == RefFrom(enc, dir, src, 0, [out |-> <<>>, bad |-> {}, errs |-> <<>>])
=============================================================================
