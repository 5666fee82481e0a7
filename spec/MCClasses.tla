----------------------------- MODULE MCClasses ------------------------------
(***************************************************************************)
(* The bounded models run over small alphabets and the proofs assume that   *)
(* units are local.  This module says why that loses nothing when decoding: *)
(* a decoder tells bytes apart by a few classes only (Exact), and what it    *)
(* says at a place depends on the few bytes that follow (Local, Short).      *)
(* TLC checks it for every window of class representatives up to Depth, and  *)
(* for the table encodings for every pair of bytes there is.                 *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS Encs, MaxLen, Whole

Class(enc) ==
  CASE enc = "utf8" -> << R(0,127), R(128,143), R(144,159), R(160,191), R(192,193), R(194,223), R(224,224), R(225,236),
                          R(237,237), R(238,239), R(240,240), R(241,243), R(244,244), R(245,247), R(248,255) >>
    [] enc \in {"utf16_be", "utf16_le"} -> << R(0,215), R(216,219), R(220,223), R(224,255) >>
    [] enc \in {"utf32_be", "utf32_le"} -> << R(0,0), R(1,16), R(17,215), R(216,223), R(224,255) >>
    [] OTHER -> [b \in 1..256 |-> R(b - 1, b - 1)]
ClassOf(enc, b) == IF enc \notin UtfNames THEN R(b, b) ELSE LET C == Class(enc) IN C[CHOOSE i \in 1..Len(C) : InR(b, C[i])]
Reps(enc) == IF enc \notin UtfNames THEN 0..255 ELSE LET C == Class(enc) IN {C[i][1] : i \in 1..Len(C)}
Deepest(enc) == CASE enc = "utf8" -> MaxLen [] enc \in UtfNames -> MaxLen + 1
                  [] enc \in SBNames -> 1 [] OTHER -> 2

VARIABLES enc, w
vars == <<enc, w>>
Init == enc \in Encs /\ w = <<>>
Next == /\ Len(w) < Deepest(enc)
        /\ \E b \in Reps(enc) : w' = Append(w, b)
        /\ UNCHANGED enc

\* The longest character, and how far one has to look.
Look(e) == CASE e \in SBNames -> 1 [] e \in {"big5_whatwg", "shiftjis_whatwg"} -> 2 [] OTHER -> 4
Shape(u) == {<<x.k, x.n>> : x \in u}

\* The classes partition the bytes.
Partition == w = <<>> => \A b \in 0..255 : Cardinality({i \in 1..Len(Class(enc)) : InR(b, Class(enc)[i])}) = 1
\* Bytes of one class lead to the same verdict everywhere in a window.
Members(i) == LET c == ClassOf(enc, w[i]) IN IF Whole THEN c[1]..c[2] ELSE {c[1], (c[1] + c[2]) \div 2, c[2]}
Exact == \A i \in 1..Len(w) : \A b \in Members(i) : \A f \in BOOLEAN :
           Shape(DecUnits(enc, [w EXCEPT ![i] = b], f)) = Shape(DecUnits(enc, w, f))
\* ... and a character's value is linear in its bytes, so that two members of a class decode to two characters.
Distinct == \A i \in 1..Len(w) : \A b \in Members(i) \ {w[i]} :
              \A u \in DecUnits(enc, w, TRUE) : (enc \in UtfNames /\ u.k = "emit" /\ i <= u.n) =>
                \A v \in DecUnits(enc, [w EXCEPT ![i] = b], TRUE) : v.out # u.out

\* What is said of the bytes up to n stands when more follow: once a unit is more than "wait", only an error
\* that reached the end of what was there may grow (and only in UTF-8).
Local == \A n \in 1..(Len(w) - 1) : \A f \in BOOLEAN :
           LET early == DecUnits(enc, SubSeq(w, 1, n), FALSE)
               late  == DecUnits(enc, w, f)
           IN  \A x \in early : x.k # "wait" =>
                 \E y \in late : /\ y.k = x.k /\ y.out = x.out
                                 /\ (y.n = x.n \/ (enc = "utf8" /\ x.k = "err" /\ x.n = n /\ y.n > n))
\* Nothing waits, or is a character, for longer than Look; and a unit never reaches beyond the window.
Short == w # <<>> => \A f \in BOOLEAN : \A u \in DecUnits(enc, w, f) :
           /\ u.k = "wait" => Len(w) < Look(enc) /\ ~f
           /\ u.k = "emit" => u.n <= Look(enc) /\ u.n >= 1
           /\ u.k = "err" => u.n >= 1 /\ u.n <= (IF enc = "utf8" THEN Len(w) ELSE Look(enc))
           /\ u.n <= Len(w)
\* is_end decides about what waits and nothing else.
EndOnly == w # <<>> => LET a == DecUnits(enc, w, FALSE)  b == DecUnits(enc, w, TRUE)
           IN  {u \in a : u.k # "wait"} = b \/ ((\E u \in a : u.k = "wait") /\ \A v \in b : v = Err(Len(w)))
\* The units of a window cover it without gaps, whatever it holds; a unit after an error is never inside one.
RECURSIVE Covers(_)
Covers(x) == x = <<>> \/ \A u \in DecUnits(enc, x, TRUE) : u.n \in 1..Len(x) /\ Covers(SubSeq(x, u.n + 1, Len(x)))
Total == Covers(w)
=============================================================================
