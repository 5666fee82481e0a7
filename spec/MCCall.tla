------------------------------- MODULE MCCall -------------------------------
(* Every window over the alphabets up to Depth + Extra pieces, grown piecewise;  *)
(* in each state the invariants quantify over all buffer sizes and both       *)
(* is_end values.  With Export set, each state also prints its allowed call   *)
(* results, which the harness replays into the real code.                     *)
EXTENDS Call, Alphabets

CONSTANTS Encs, Dirs, Extra, CapMax, Export
VARIABLES enc, dir, win, size
vars == <<enc, dir, win, size>>

Init == enc \in Encs /\ dir \in Dirs /\ win = <<>> /\ size = 0
Next == /\ size < Depth(enc, dir) + Extra
        /\ size' = size + 1
        /\ \E x \in Pieces(enc, dir) : win' = win \o x
        /\ UNCHANGED <<enc, dir>>
Spec == Init /\ [][Next]_vars

Caps  == 0..CapMax
Res(cap, fin) == CallResults(enc, dir, win, cap, fin)
Plenty == 40
All(P(_, _, _)) == \A cap \in Caps, fin \in BOOLEAN : \A r \in Res(cap, fin) : P(cap, fin, r)

\* --- C08
WellFormed(out) == IF dir = "dec" THEN Ref("utf8", "dec", out).errs = <<>>
                                  ELSE Ref(enc, "dec", out).errs = <<>>
C08Valid == All(LAMBDA cap, fin, r : WellFormed(r.out))

\* --- C09
C09Bounds == /\ \A cap \in Caps, fin \in BOOLEAN : Res(cap, fin) # {}
             /\ All(LAMBDA cap, fin, r : /\ Len(r.out) <= cap
                                         /\ r.used + r.n <= Len(win)
                                         /\ r.ok \/ r.n >= 1)

\* --- C12
C12Fit == All(LAMBDA cap, fin, r :
                LET m == Fit(enc, dir, win, cap, fin) IN r.used = m[1] /\ Len(r.out) = m[2])

\* --- C13, C14
ErrorExact ==
  \A fin \in BOOLEAN :
    LET p  == StopPos(enc, dir, win, fin)
        us == StopUnits(enc, dir, win, fin)
        w  == Max({m[2] : m \in Marks(enc, dir, win, fin)})
    IN \A cap \in Caps :
         /\ \A r \in Res(cap, fin) : ~r.ok => /\ r.used = p /\ Len(r.out) = w
                                              /\ \E u \in us : u.k = "err" /\ u.n = r.n
         /\ (/\ us # {} /\ \A u \in us : u.k = "err"
             /\ w <= cap /\ cap - w >= MaxUnit(enc, dir)) => \A r \in Res(cap, fin) : ~r.ok

\* --- C16
C16Progress ==
  win # <<>> =>
    \A cap \in {c \in Caps : c >= 4}, fin \in BOOLEAN : \A r \in Res(cap, fin) :
      \/ ~r.ok \/ r.used > 0
      \/ ~fin /\ StopPos(enc, dir, win, fin) = 0 /\ Wait \in StopUnits(enc, dir, win, fin)

\* --- C17
C17IsEnd ==
  \A cap \in Caps :
    LET p == StopPos(enc, dir, win, FALSE) IN
    IF Wait \in StopUnits(enc, dir, win, FALSE)
    THEN /\ \E r \in Res(cap, FALSE) : r.ok
         /\ dir = "dec" => \A r \in Res(cap, TRUE) : ~r.ok => r.used = p /\ r.n = Len(win) - p
         /\ dir = "enc" => \A r \in Res(cap, TRUE) : r.ok
    ELSE Res(cap, TRUE) = Res(cap, FALSE)

\* --- C19
C19Ascii ==
  (enc \in AsciiNames /\ win # <<>>) =>
    \A fin \in BOOLEAN : \A u \in Units(enc, dir, win, fin) :
      /\ Head(win) < 128 => u = Emit(1, <<Head(win)>>)
      /\ (dir = "dec" /\ u.k = "err") => \A i \in 1..u.n : win[i] >= 128

\* --- C20
Mirror(e) == CASE e = "utf16_be" -> "utf16_le" [] e = "utf16_le" -> "utf16_be"
               [] e = "utf32_be" -> "utf32_le" [] e = "utf32_le" -> "utf32_be"
UnitSize(e) == IF e \in {"utf16_be", "utf16_le"} THEN 2 ELSE 4
Swap(e, s) == RevUnits(s, UnitSize(e))
C20Mirror ==
  enc \in {"utf16_be", "utf16_le", "utf32_be", "utf32_le"} =>
    IF dir = "dec"
    THEN Len(win) % UnitSize(enc) = 0 =>
           \A cap \in Caps, fin \in BOOLEAN :
             Res(cap, fin) = CallResults(Mirror(enc), dir, Swap(enc, win), cap, fin)
    ELSE \A cap \in Caps, fin \in BOOLEAN :
           {[r EXCEPT !.out = Swap(enc, r.out)] : r \in Res(cap, fin)}
             = CallResults(Mirror(enc), dir, win, cap, fin)

\* --- C07
Lossy == \E i \in 1..Len(win) : KnownLossy(enc, win[i])
C07RoundTrip ==
  dir = "enc" =>
    LET e == Ref(enc, "enc", win) IN
    (e.errs = <<>> /\ ~Lossy) =>
       LET d == Ref(enc, "dec", e.out) IN d.errs = <<>> /\ d.out = Utf8Str(win)
\* The findings are real in the specification too, and are the only ones.
C07Findings ==
  (dir = "enc" /\ Len(win) = 1 /\ Lossy) => Ref(enc, "dec", Ref(enc, "enc", win).out).out # Utf8Str(win)

\* --- C21.  The decoded text as scalars:
RECURSIVE Scalars(_, _, _)
Scalars(e, bytes, acc) ==
  IF bytes = <<>> THEN acc
  ELSE LET u == CHOOSE x \in DecUnits(e, bytes, TRUE) : TRUE
       IN  Scalars(e, Drop(bytes, u.n), acc \o u.out)
C21Canonical ==
  (dir = "dec" /\ Ref(enc, "dec", win).errs = <<>>) =>
    LET t == Scalars(enc, win, <<>>)
        e == Ref(enc, "enc", t)
    IN  /\ e.errs = <<>>
        /\ enc \notin {"big5_whatwg", "shiftjis_whatwg"} => e.out = win
        /\ Scalars(enc, e.out, <<>>) = t

\* --- C23: growing the buffer or the input never revises what was delivered.
Extends(a, b, cap, fin) == /\ IsPrefix(a.out, b.out) /\ a.used <= b.used
                 /\ ~a.ok => /\ b.used = a.used /\ b.out = a.out
                             /\ (fin /\ cap - Len(b.out) >= 4) => ~b.ok
                             /\ ~b.ok => b.n >= a.n
C23Buffer ==
  \A fin \in BOOLEAN : \A c1, c2 \in Caps : c1 < c2 =>
    \A a \in Res(c1, fin), b \in Res(c2, fin) : Extends(a, b, c2, fin) /\ (~a.ok /\ ~b.ok => a.n = b.n)
C23Input ==
  [][\A cap \in Caps, fin \in BOOLEAN :
       \A a \in Res(cap, FALSE), b \in CallResults(enc, dir, win', cap, fin) : Extends(a, b, cap, fin)]_vars

\* --- C25: encoded texts may be joined.
Seam(k) == /\ enc = "big5_whatwg" /\ 0 < k /\ k < Len(win)
           /\ PairStart(win[k]) /\ PairPtr(win[k], win[k + 1]) >= 0
C25Join ==
  dir = "enc" =>
    \A k \in 0..Len(win) :
      LET a == Ref(enc, "enc", SubSeq(win, 1, k))
          b == Ref(enc, "enc", Drop(win, k))
          j == a.out \o b.out
          d == Ref(enc, "dec", j)
      IN  (a.errs = <<>> /\ b.errs = <<>>) =>
            /\ d.errs = <<>>
            /\ d.out = Ref(enc, "dec", a.out).out \o Ref(enc, "dec", b.out).out
            /\ ~Seam(k) => Ref(enc, "enc", win).out = j

\* --- C26: with room to spare, nothing but an incomplete character is held
\* back: at most three bytes of it, or one character of two bytes.
HeldMax == CASE dir = "dec" /\ enc \in {"big5_whatwg", "shiftjis_whatwg"} -> 1
             [] dir = "dec" /\ enc \in UtfNames -> 3
             [] dir = "enc" /\ enc = "big5_whatwg" -> 2
             [] OTHER -> 0
HeldBytes(r) == SrcSize(dir, Drop(win, r.used))
C26Held ==
  \A cap \in Caps \cup {4 * SrcSize(dir, win)}, fin \in BOOLEAN : \A r \in Res(cap, fin) :
    (r.ok /\ (cap >= Len(r.out) + 4 \/ cap >= 4 * SrcSize(dir, win)))
      => HeldBytes(r) = 0 \/ (~fin /\ HeldBytes(r) <= HeldMax)
\* ... and it is really incomplete: no character or error is there yet.
C26Wait ==
  \A fin \in BOOLEAN : \A r \in Res(4 * SrcSize(dir, win), fin) :
    (r.ok /\ r.used < Len(win)) => Wait \in Units(enc, dir, Drop(win, r.used), fin)

\* --- C27: whole characters in front only shift a call.
Shift(r, n, o) == [r EXCEPT !.used = @ + n, !.out = o \o @]
C27Shift ==
  \A k \in 0..Len(win) :
    \A a \in CallResults(enc, dir, SubSeq(win, 1, k), Plenty, FALSE) :
      (a.ok /\ a.used = k) =>
        \A cap \in Caps, fin \in BOOLEAN :
          CallResults(enc, dir, win, cap + Len(a.out), fin)
            = {Shift(r, k, a.out) : r \in CallResults(enc, dir, Drop(win, k), cap, fin)}

\* --- replay export: one line per window, with its allowed results for every
\* buffer size and is_end value, in the form the harness replays.
CapsX == [c \in 1..(CapMax + 2) |-> IF c = CapMax + 2 THEN Plenty ELSE c - 1]
Fins  == IF HasEnd(enc, dir) THEN <<FALSE, TRUE>> ELSE <<TRUE>>
Rows  == [r \in 1..(Len(CapsX) * Len(Fins)) |->
            LET cap == CapsX[((r - 1) \div Len(Fins)) + 1]
                fin == Fins[((r - 1) % Len(Fins)) + 1]
            IN  <<cap, fin, SetToSeq(Res(cap, fin))>>]
ExportInv ==
  Export => PrintT("@@" \o ToJson([e |-> enc, d |-> dir, w |-> win, x |-> Rows]))
=============================================================================
