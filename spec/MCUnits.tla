------------------------------ MODULE MCUnits -------------------------------
(***************************************************************************)
(* Is Codec right?  Facts about single units, checked over blocks of 1024    *)
(* code points (all of them with Stride = 1) against definitions that share   *)
(* nothing with the segments and the sorted tables Codec works with: the bit  *)
(* layouts of RFC 3629 and RFC 2781, and plain look-up in the index tables.   *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Sets,      \* which of "utf8", "utf16", "utf32", "single", "big5", "sjis"
          Stride, Offset
VARIABLES blk, step    \* blk < 0: not started (so that the work is shared out to all workers)

NBlocks == 1088   \* 1088 * 1024 = 16#110000
Lanes   == 32
Init == step \in Sets /\ blk \in {0 - l : l \in 1..Lanes}
Next == /\ blk' = (IF blk < 0 THEN (0 - blk - 1) * Stride + (Offset % Stride) ELSE blk + Lanes * Stride)
        /\ blk' < NBlocks
        /\ UNCHANGED step
Started == blk >= 0
Block == IF Started THEN (blk * 1024)..(blk * 1024 + 1023) ELSE {}

-----------------------------------------------------------------------------
(* RFC 3629 *)
Rfc3629(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                      128 + ((c \div 64) % 64), 128 + (c % 64)>>
(* RFC 2781 *)
Be(u) == <<u \div 256, u % 256>>
Le(u) == <<u % 256, u \div 256>>
Rfc2781(c) == IF c < 65536 THEN <<c>>
              ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Utf16(e, c) == LET u == Rfc2781(c) IN
               IF Len(u) = 1 THEN (IF e = "utf16_be" THEN Be(u[1]) ELSE Le(u[1]))
               ELSE IF e = "utf16_be" THEN Be(u[1]) \o Be(u[2]) ELSE Le(u[1]) \o Le(u[2])
Utf32(e, c) == IF e = "utf32_be" THEN Be(c \div 65536) \o Be(c % 65536)
                                 ELSE Le(c % 65536) \o Le(c \div 65536)
Standard(e, c) == CASE e = "utf8" -> Rfc3629(c)
                    [] e \in {"utf16_be", "utf16_le"} -> Utf16(e, c)
                    [] OTHER -> Utf32(e, c)

Prefixes1(s) == {SubSeq(s, 1, k) : k \in 1..(Len(s) - 1)}
UnitOk(e, c) ==
  LET s == Standard(e, c) IN
  IF Scalar(c)
  THEN /\ EncUnits(e, <<c>>, TRUE) = {Emit(1, s)}
       /\ DecUnits(e, s, TRUE)  = {Emit(Len(s), <<c>>)}
       /\ DecUnits(e, s, FALSE) = {Emit(Len(s), <<c>>)}
       /\ DecUnits(e, s \o <<191>>, FALSE) = {Emit(Len(s), <<c>>)}
       /\ \A p \in Prefixes1(s) : DecUnits(e, p, FALSE) = {Wait} /\ DecUnits(e, p, TRUE) = {Err(Len(p))}
  ELSE \* a surrogate: its would-be encoding is refused, to the last byte in UTF-8
       DecUnits(e, s, TRUE) = {Err(Len(s))}

UtfNamesOf(x) == CASE x = "utf8" -> {"utf8"}
                   [] x = "utf16" -> {"utf16_be", "utf16_le"}
                   [] x = "utf32" -> {"utf32_be", "utf32_le"}
                   [] OTHER -> {}
Utf == \A e \in UtfNamesOf(step) : \A c \in Block : UnitOk(e, c)

\* Every byte string is a prefix-free matter: no two segments meet, and
\* together they hold as many strings as there are scalar values.
Disjoint(a, b) == \E k \in 1..(IF Len(a.pat) < Len(b.pat) THEN Len(a.pat) ELSE Len(b.pat)) :
                     a.pat[k][2] < b.pat[k][1] \/ b.pat[k][2] < a.pat[k][1]
RECURSIVE Total(_, _)
Total(S, k) == IF k = 0 THEN 0 ELSE Total(S, k - 1) + SegSize(S[k], Len(S[k].pat))
SegsOk == Started => \A e \in UtfNamesOf(step) :
            LET S == Segs(e) IN
            /\ Total(S, Len(S)) = 1114112 - 2048
            /\ \A a, b \in 1..Len(S) : a # b => Disjoint(S[a], S[b])

-----------------------------------------------------------------------------
(* Tables *)
Emitted(us) == UNION {IF u.k = "emit" /\ Len(u.out) = 1 THEN {u.out[1]} ELSE {} : u \in us}
Singles(e)  == UNION {Emitted(DecUnits(e, <<b>>, TRUE)) : b \in 0..255}
Doubles(e)  == UNION {UNION {Emitted(DecUnits(e, <<b, t>>, TRUE)) : t \in 64..254} : b \in 129..254}
DecodableSB    == [e \in SBNames |-> Singles(e)]
DecodableBig5  == Singles("big5_whatwg") \cup Doubles("big5_whatwg")
DecodableSjis  == Singles("shiftjis_whatwg") \cup Doubles("shiftjis_whatwg")

Encodes(e, c) == \E u \in EncUnits(e, <<c>>, TRUE) : u.k = "emit"
BytesOf(e, c) == (CHOOSE u \in EncUnits(e, <<c>>, TRUE) : TRUE).out
Returns(e, c) == LET s == BytesOf(e, c) IN DecUnits(e, s, TRUE) = {Emit(Len(s), <<c>>)}
Scalars1 == {c \in Block : Scalar(c)}

\* Exactly what can be decoded can be encoded, and comes back.
Single == step = "single" =>
  \A e \in SBNames : \A c \in Scalars1 :
    IF c \in DecodableSB[e] THEN Encodes(e, c) /\ Returns(e, c) ELSE ~Encodes(e, c)
Big5 == step = "big5" =>
  \A c \in Scalars1 :
    IF c \in DecodableBig5 THEN Encodes("big5_whatwg", c) /\ Returns("big5_whatwg", c)
    ELSE ~Encodes("big5_whatwg", c)
Sjis == step = "sjis" =>
  \A c \in Scalars1 :
    IF c \in {165, 8254, 8722} THEN Encodes("shiftjis_whatwg", c) /\ ~Returns("shiftjis_whatwg", c)
    ELSE IF c \in DecodableSjis THEN Encodes("shiftjis_whatwg", c) /\ Returns("shiftjis_whatwg", c)
    ELSE ~Encodes("shiftjis_whatwg", c)

\* The pointer rules: for pointer p of character c the encoder's choice is an
\* admissible pointer of c, not after p (not before, for the six exceptions).
Slice(n) == {p \in 0..(n - 1) : p % NBlocks = blk}
Big5Ptrs == (step = "big5" /\ Started) =>
  \A p \in Slice(Len(Big5Tab)) :
    /\ LET s == Big5Bytes(p) IN Big5Ptr(s[1], s[2]) = p /\ 129 <= s[1] /\ s[1] <= 254 /\ Big5TrailOk(s[2])
    /\ LET c == Big5Tab[p + 1] IN c >= 0 =>
         LET s == BytesOf("big5_whatwg", c)  q == Big5Ptr(s[1], s[2]) IN
         /\ c >= 128 /\ Scalar(c) /\ Big5Tab[q + 1] = c
         /\ IF c \in {9552, 9566, 9569, 9578, 21313, 21317} THEN q >= p ELSE q <= p
SjisPtrs == (step = "sjis" /\ Started) =>
  \A p \in Slice(Len(SjisTab)) :
    /\ LET s == SjisBytes(p) IN SjisPtr(s[1], s[2]) = p /\ SjisLead(s[1]) /\ SjisTrailOk(s[2])
    /\ LET c == SjisTab[p + 1] IN c >= 0 =>
         LET s == BytesOf("shiftjis_whatwg", c)  q == SjisPtr(s[1], s[2]) IN
         /\ c >= 128 /\ Scalar(c) /\ SjisTab[q + 1] = c
         /\ (q < 8272 \/ q > 8835)
         /\ (p < 8272 \/ p > 8835) => q <= p
SingleTabs == (step = "single" /\ Started) =>
  \A e \in SBNames : LET T == SBTab[e] IN
    /\ Len(T) = 128
    /\ \A a \in 1..128 : T[a] = -1 \/ (T[a] >= 128 /\ Scalar(T[a]))
    /\ \A a, b \in 1..128 : (a # b /\ T[a] >= 0) => T[a] # T[b]
=============================================================================
