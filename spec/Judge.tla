------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* The verdict on recorded executions of the real code.  Each line of the    *)
(* file named by CASES is a case: the property it is about (p), a source     *)
(* (src, in elements: bytes when decoding, scalars when encoding), some       *)
(* calls, and up to two sessions (s1, s2: the calls of a streaming client).  *)
(* A call is                                                                *)
(*   e, d   encoding, direction      w  its window, in elements              *)
(*   b      elements of src before the window (sessions)                     *)
(*   c, f   buffer length, is_end    k  ok / err / panic / crash / hang      *)
(*   u      bytes consumed (ok) or start of the error range                  *)
(*   n      end of the error range   wr output_bytes_written / slice length  *)
(*   o      the output bytes         ch EncodeError::character               *)
(*   cs     0 = cause InvalidData    at the slice starts the buffer          *)
(*   oob    memory around the buffer was touched                             *)
(***************************************************************************)
EXTENDS Call, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

RECURSIVE BytePos(_, _, _, _)
\* number of leading scalars of s that take exactly raw bytes in UTF-8, or -1
BytePos(s, raw, i, acc) == IF acc = raw THEN i
                           ELSE IF acc > raw \/ i = Len(s) THEN -1
                           ELSE BytePos(s, raw, i + 1, acc + Utf8Len(s[i + 1]))
At(c, raw) == IF c.d = "dec" THEN (IF raw <= Len(c.w) THEN raw ELSE -1) ELSE BytePos(c.w, raw, 0, 0)
InSize(c)  == SrcSize(c.d, c.w)
Prefix(s, n) == SubSeq(s, 1, n)

Returned(c) == c.k \in {"ok", "err"}
Result(c) == IF c.k = "ok" THEN [ok |-> TRUE, used |-> At(c, c.u), out |-> c.o, n |-> 0]
             ELSE [ok |-> FALSE, used |-> At(c, c.u), out |-> c.o, n |-> At(c, c.n) - At(c, c.u)]
\* Exactly what the specification allows for this call.
Conforms(c) ==
  /\ Returned(c) /\ c.at /\ ~c.oob /\ c.wr = Len(c.o) /\ c.cs = 0
  /\ Result(c) \in CallResults(c.e, c.d, c.w, c.c, c.f)
  /\ (c.k = "err" /\ c.d = "enc") => c.ch = c.w[At(c, c.u) + 1]
All(c) == c.k = "ok" /\ c.u = InSize(c)
Same(a, b) == a.k = b.k /\ a.u = b.u /\ a.n = b.n /\ a.wr = b.wr /\ a.o = b.o
              /\ a.ch = b.ch /\ a.cs = b.cs /\ a.at = b.at /\ a.oob = b.oob

Stop(c)  == StopPos(c.e, c.d, c.w, c.f)
StopU(c) == StopUnits(c.e, c.d, c.w, c.f)
Need(c)  == Max({m[2] : m \in Marks(c.e, c.d, c.w, c.f)})

-----------------------------------------------------------------------------
Standard(x, encs) == LET c == x.calls[1] IN (c.e \in encs /\ c.c >= Need(c) + 4) => Conforms(c)

\* C07.  The findings of known_findings.txt are the substitutions of Subst.
Subst(t) == [i \in 1..Len(t) |-> CASE t[i] = 165 -> 92 [] t[i] = 8254 -> 126 [] t[i] = 8722 -> 65293
                                   [] OTHER -> t[i]]
RoundTrip(x) ==
  LET a == x.calls[1]  u == At(a, a.u) IN
  (Returned(a) /\ u >= 0) =>
    LET b == x.calls[2]  t == Prefix(a.w, u) IN
    b.w = a.o => /\ All(b)
                 /\ \/ b.o = Utf8Str(t)
                    \/ a.e = "shiftjis_whatwg" /\ b.o = Utf8Str(Subst(t))

Valid(x) == LET c == x.calls[1] IN
  Returned(c) => c.at /\ Ref(IF c.d = "dec" THEN "utf8" ELSE c.e, "dec", c.o).errs = <<>>

Bounds(x) == LET c == x.calls[1] IN
  /\ Returned(c) /\ ~c.oob /\ c.wr <= c.c
  /\ IF c.k = "ok" THEN c.u <= InSize(c) ELSE c.u <= c.n /\ c.n <= InSize(c)

-----------------------------------------------------------------------------
(* Sessions *)
RECURSIVE Text(_, _)
Text(s, i) == IF i = 0 THEN <<>> ELSE Text(s, i - 1) \o s[i].o
BytesBefore(x, c) == SrcSize(c.d, Prefix(x.src, c.b))
Chunked(x) ==
  LET W == x.calls[1]  s == x.s1 IN
  (Returned(W) /\ s # <<>>) =>
    LET l == s[Len(s)] IN
    /\ \A i \in 1..Len(s) : Returned(s[i])
    /\ Text(s, Len(s)) = W.o
    /\ l.k = W.k /\ BytesBefore(x, l) + l.u = W.u
    /\ W.k = "err" => l.ch = W.ch

\* the elements of src that the client skipped
Bad(x, s) == UNION {LET c == s[i]  lo == At(c, c.u)  hi == At(c, c.n) IN
                    IF c.k = "err" /\ lo >= 0 /\ hi >= 0 THEN (c.b + lo)..(c.b + hi - 1) ELSE {}
                     : i \in 1..Len(s)}
Ends(x, s) == IF s = <<>> THEN x.src = <<>>
              ELSE LET l == s[Len(s)] IN
                   /\ Returned(l)
                   /\ BytesBefore(x, l) + (IF l.k = "ok" THEN l.u ELSE l.n) = SrcSize(x.d, x.src)

RECURSIVE ValidIn(_, _, _, _)
\* does a valid unit start in w at or after position p, before hi?
ValidIn(e, w, p, hi) == IF p >= hi THEN FALSE
                        ELSE LET u == CHOOSE q \in DecUnits(e, Drop(w, p), TRUE) : TRUE
                             IN  u.k = "emit" \/ ValidIn(e, w, p + u.n, hi)
RangeOk(c) ==
  (c.k = "err" /\ c.u < c.n /\ c.n <= Len(c.w)) =>
    LET us == {u \in DecUnits(c.e, Drop(c.w, c.u), c.f) : u.k # "wait"} IN
    \A u \in us : ~ValidIn(c.e, c.w, c.u + u.n, c.n)
UnitAsTable(c) ==
  IF \E u \in Units(c.e, c.d, c.w, TRUE) : u.k = "err" THEN c.k = "err" /\ c.u = 0 ELSE Conforms(c)
Recovery(x) ==
  IF x.s1 = <<>> THEN \A i \in 1..Len(x.calls) : RangeOk(x.calls[i])
  ELSE LET ref == Ref(x.e, x.d, x.src)
           t1 == Text(x.s1, Len(x.s1))  b1 == Bad(x, x.s1)
       IN  /\ t1 = Text(x.s2, Len(x.s2)) /\ b1 = Bad(x, x.s2) /\ (Ends(x, x.s1) <=> Ends(x, x.s2))
           /\ (\A i \in 1..Len(x.calls) : UnitAsTable(x.calls[i])) => t1 = ref.out /\ b1 = ref.bad

-----------------------------------------------------------------------------
\* The call stopped after a whole character although more would have fitted.
StoppedEarly(c) ==
  LET m == Fit(c.e, c.d, c.w, c.c, c.f)  u == At(c, c.u) IN
  c.k = "ok" /\ u >= 0 /\ u < m[1] /\ c.o = Ref(c.e, c.d, Prefix(c.w, u)).out
FitsExactly(x) ==
  /\ ~StoppedEarly(x.calls[1])
  /\ (Len(x.calls) = 2 /\ Conforms(x.calls[1])) =>
    LET a == x.calls[1]  b == x.calls[2]  m == Fit(b.e, b.d, b.w, b.c, b.f) IN
    CASE b.k = "ok"  -> At(b, b.u) = m[1] /\ b.o = Prefix(a.o, m[2])
      [] b.k = "err" -> m[1] = Stop(b)
      [] OTHER       -> FALSE

ErrorExact(x) ==
  LET c == x.calls[1]  p == Stop(c)  us == StopU(c)  L == Need(c)
      must == us # {} /\ (\A u \in us : u.k = "err") /\ c.c - L >= MaxUnit(c.e, c.d)
      lo == At(c, c.u)  hi == At(c, c.n)
  IN IF c.k = "err"
     THEN /\ lo = p /\ hi > lo /\ c.wr <= c.c /\ c.cs = 0
          /\ \E u \in us : u.k = "err" /\ (c.d = "enc" => u.n = hi - lo /\ c.ch = c.w[p + 1])
          /\ \/ c.wr = L /\ c.o = Ref(c.e, c.d, Prefix(c.w, p)).out
             \/ /\ Len(x.calls) > 1
                /\ LET q == x.calls[2] IN q.w = Prefix(c.w, p) /\ All(q) /\ q.o = c.o /\ q.wr = c.wr
     ELSE ~must

Progress(x) ==
  IF x.s1 # <<>> THEN Ends(x, x.s1)
  ELSE LET c == x.calls[1] IN
       (c.w # <<>> /\ c.c >= 4) =>
         CASE c.k = "ok"  -> c.u > 0 \/ (~c.f /\ Stop(c) = 0 /\ Wait \in StopU(c))
           [] c.k = "err" -> c.n > 0
           [] OTHER       -> FALSE

IsEnd(x) ==
  LET f == x.calls[1]  t == x.calls[2]  p == Stop(f)  us == StopU(f)  L == Need(f) IN
  IF Wait \notin us \/ L > f.c THEN Same(f, t)
  ELSE LET g == x.calls[3] IN
       (g.w = Prefix(f.w, p) /\ Conforms(g)) =>
         /\ \/ f.k = "ok" /\ At(f, f.u) = p
            \/ f.k = "err" /\ f.u = p /\ \E u \in us : u.k = "err"
         /\ IF f.d = "dec"
            THEN \/ t.k = "err" /\ t.u = p /\ t.n = Len(t.w)
                 \/ t.k = "ok" /\ t.u = p /\ t.c - L < MaxUnit(t.e, t.d)
            ELSE t.k = "ok" /\ IF t.c - L >= 2 THEN At(t, t.u) = Len(t.w) /\ t.wr = L + 2 ELSE At(t, t.u) = p

Ascii(x) ==
  IF Len(x.calls) < 2
  THEN LET c == x.calls[1] IN
       (c.d = "dec" /\ c.k = "err" /\ c.n <= Len(c.w)) => \A i \in (c.u + 1)..c.n : c.w[i] >= 128
  ELSE LET q == x.calls[1]  r == x.calls[2]  n == Len(q.w) IN
       \* q: what comes before an ASCII character, which is w[n+1] of r.
       (Conforms(q) /\ All(q) /\ r.w[n + 1] < 128
        /\ \E u \in Units(r.e, r.d, Drop(r.w, n), r.f) : u = Emit(1, <<r.w[n + 1]>>)) =>
         /\ Returned(r) /\ r.u > InSize(q) /\ Len(r.o) > Len(q.o)
         /\ Prefix(r.o, Len(q.o)) = q.o /\ r.o[Len(q.o) + 1] = r.w[n + 1]

SwapU(s, u) == [i \in 1..Len(s) |-> s[(((i - 1) \div u) * u) + (u - ((i - 1) % u))]]
Mirror(x) ==
  LET a == x.calls[1]  b == x.calls[2]  u == IF a.e = "utf16_be" THEN 2 ELSE 4 IN
  IF a.d = "dec" THEN (Len(a.w) % u = 0 /\ b.w = SwapU(a.w, u)) => Same(a, b)
  ELSE Len(a.o) % u = 0 /\ Same([a EXCEPT !.o = SwapU(a.o, u)], b)

\* The scalars of valid UTF-8.
RECURSIVE Scalars(_, _)
Scalars(bytes, acc) == IF bytes = <<>> THEN acc
                       ELSE LET u == CHOOSE q \in DecUnits("utf8", bytes, TRUE) : TRUE
                            IN  Scalars(Drop(bytes, u.n), acc \o u.out)
\* d is a piece of b's text by itself: wherever it stands in that text, it must
\* come out the same.  (Both codes of a character have two bytes.)
OneForm(b, d) ==
  LET n == Len(d.w)
      Whole(i) == ~(0 < i /\ i < Len(b.w) /\ PairStart(b.w[i]) /\ PairPtr(b.w[i], b.w[i + 1]) >= 0)
  IN  (d.e = b.e /\ d.d = "enc" /\ d.f /\ All(d) /\ n > 0) =>
        \A i \in 0..(Len(b.w) - n) :
          (SubSeq(b.w, i + 1, i + n) = d.w /\ (b.e = "shiftjis_whatwg" \/ (Whole(i) /\ Whole(i + n)))) =>
            LET at == Len(Ref(b.e, "enc", Prefix(b.w, i)).out) IN
            SubSeq(b.o, at + 1, at + Len(d.o)) = d.o
Canonical(x) ==
  LET a == x.calls[1] IN
  (Returned(a) /\ Len(x.calls) > 1) =>
    LET b == x.calls[2] IN
    (Ref("utf8", "dec", a.o).errs = <<>> /\ b.w = Scalars(a.o, <<>>)) =>
      /\ All(b)
      /\ IF a.e \in {"big5_whatwg", "shiftjis_whatwg"}
         THEN /\ LET c == x.calls[3] IN c.w = b.o => All(c) /\ c.o = a.o
              /\ Len(x.calls) = 4 => OneForm(b, x.calls[4])
         ELSE b.o = Prefix(a.w, a.u)

Pure(x) == LET a == x.calls[1]  b == x.calls[2] IN
           (a.e = b.e /\ a.d = b.d /\ a.w = b.w /\ a.c = b.c /\ a.f = b.f) => Same(a, b)

\* C23: b, which had more room or more input, revises nothing of a.
Extends(a, b, same) ==
  /\ a.u <= b.u /\ a.wr <= b.wr /\ IsPrefix(a.o, b.o)
  /\ a.k = "err" => /\ b.u = a.u /\ b.wr = a.wr
                    /\ (b.f /\ b.c - b.wr >= 4) => b.k = "err"
                    /\ b.k = "err" => /\ b.ch = a.ch /\ b.cs = a.cs /\ b.n >= a.n
                                      /\ same => b.n = a.n
Growth(x) ==
  LET a == x.calls[1]  b == x.calls[2]
      room  == a.w = b.w /\ a.f = b.f /\ a.c <= b.c
      input == a.c = b.c /\ IsPrefix(a.w, b.w) /\ (~a.f \/ ~HasEnd(a.e, a.d))
  IN  (Len(x.calls) >= 2 /\ a.e = b.e /\ a.d = b.d /\ Returned(a) /\ Returned(b) /\ (room \/ input))
        => Extends(a, b, room)

\* C24: the steps of a transcoding client against two whole calls.
Pipeline(x) ==
  LET w == x.calls[1]  e == x.calls[2]  s1 == x.s1  s2 == x.s2
      l1 == s1[Len(s1)]  l2 == s2[Len(s2)]
      bytes == Text(s1, Len(s1))
      none1 == s1 = <<>>  none2 == s2 = <<>>
      at1 == IF none1 THEN 0 ELSE l1.b + l1.u
      at2 == IF none2 THEN 0 ELSE Utf8Size(Prefix(x.text, l2.b)) + l2.u
      err1 == ~none1 /\ l1.k = "err"
      err2 == ~none2 /\ l2.k = "err"
  IN  (Len(x.calls) = 2 /\ Returned(w) /\ Returned(e) /\ Utf8Str(x.text) = bytes /\ Utf8Str(e.w) = w.o) =>
        /\ \A k \in 1..Len(s1) : Returned(s1[k])
        /\ \A k \in 1..Len(s2) : Returned(s2[k])
        /\ Text(s2, Len(s2)) = e.o
        /\ IF e.k = "err" THEN err2 /\ l2.ch = e.ch /\ at2 = e.u
           ELSE /\ ~err2 /\ bytes = w.o /\ at2 = Len(bytes)
                /\ IF w.k = "err" THEN err1 /\ at1 = w.u ELSE ~err1 /\ at1 = Len(x.src)

\* C25: the encodings of two texts, joined.
Seam(a, b) == /\ a.e = "big5_whatwg" /\ a.w # <<>> /\ b.w # <<>>
              /\ PairStart(a.w[Len(a.w)]) /\ PairPtr(a.w[Len(a.w)], b.w[1]) >= 0
Join(x) ==
  (Len(x.calls) = 6) =>
    LET a == x.calls[1]  b == x.calls[2]  j == x.calls[3]  p == x.calls[4]  q == x.calls[5]  t == x.calls[6] IN
    (/\ All(a) /\ All(b) /\ j.w = a.o \o b.o /\ p.w = a.o /\ q.w = b.o /\ t.w = a.w \o b.w
     /\ All(p) /\ All(q)) =>
       /\ All(j) /\ j.o = p.o \o q.o
       /\ Seam(a, b) \/ (All(t) /\ t.o = j.w)

\* C26: nothing but an incomplete character is held back.
HeldMax(e, d) == CASE d = "dec" /\ e \in {"big5_whatwg", "shiftjis_whatwg"} -> 1
                   [] d = "dec" /\ e \in UtfNames -> 3
                   [] d = "enc" /\ e = "big5_whatwg" -> 2
                   [] OTHER -> 0
Held(x) ==
  LET c == x.calls[1]  left == InSize(c) - c.u IN
  (c.k = "ok" /\ left >= 0 /\ (c.c >= Len(c.o) + 4 \/ c.c >= 4 * InSize(c)))
    => left = 0 \/ (/\ ~c.f /\ left <= HeldMax(c.e, c.d) /\ At(c, c.u) >= 0
                    /\ Wait \in Units(c.e, c.d, Drop(c.w, At(c, c.u)), FALSE))

\* C27: b is t behind the whole characters of a.
Shifted(x) ==
  LET a == x.calls[1]  b == x.calls[2]  t == x.calls[3]
      us == Units(t.e, t.d, Drop(t.w, At(t, t.u)), t.f)
  IN  (/\ Len(x.calls) = 3 /\ a.e = b.e /\ t.e = b.e /\ a.d = b.d /\ t.d = b.d
       /\ All(a) /\ (~a.f \/ ~HasEnd(a.e, a.d)) /\ b.w = a.w \o t.w /\ b.f = t.f /\ b.c = t.c + Len(a.o)
       /\ Returned(b) /\ Returned(t)) =>
        /\ b.u = t.u + InSize(a) /\ b.wr = t.wr + Len(a.o) /\ b.o = a.o \o t.o
        /\ IF b.k = t.k THEN b.k = "ok" \/ (b.n = t.n + InSize(a) /\ b.ch = t.ch /\ b.cs = t.cs)
           ELSE \* the freedoms of Call
                /\ At(t, t.u) >= 0 /\ At(t, t.u) < Len(t.w) /\ \E u \in us : u.k = "err"
                /\ Wait \in us \/ t.c - Len(t.o) < MaxUnit(t.e, t.d)

-----------------------------------------------------------------------------
SB == Encodings \ (UtfNames \cup {"big5_whatwg", "shiftjis_whatwg"})
\* A call that killed the process or never returned: broken for every property
\* that promises a result for it.
Died(x) ==
  LET c == x.calls[1] IN
  CASE x.p \in {"C18", "C20", "C23", "C26", "C27"} -> FALSE
    [] x.p = "C07" -> c.d = "dec"
    [] x.p = "C21" -> c.d = "enc"
    [] x.p = "C08" -> c.k = "crash"
    [] OTHER -> TRUE
Holds(x) ==
  IF Len(x.calls) >= 1 /\ x.calls[1].k \in {"crash", "hang"} THEN ~Died(x)
  ELSE CASE x.p = "C01" -> Standard(x, {"utf8"})
         [] x.p = "C02" -> Standard(x, {"utf16_be", "utf16_le"})
         [] x.p = "C03" -> Standard(x, {"utf32_be", "utf32_le"})
         [] x.p = "C04" -> Standard(x, SB)
         [] x.p = "C05" -> Standard(x, {"big5_whatwg"})
         [] x.p = "C06" -> Standard(x, {"shiftjis_whatwg"})
         [] x.p = "C07" -> RoundTrip(x)
         [] x.p = "C08" -> Valid(x)
         [] x.p = "C09" -> Bounds(x)
         [] x.p \in {"C10", "C11"} -> Chunked(x)
         [] x.p = "C12" -> FitsExactly(x)
         [] x.p \in {"C13", "C14"} -> ErrorExact(x)
         [] x.p = "C15" -> Recovery(x)
         [] x.p = "C16" -> Progress(x)
         [] x.p = "C17" -> IsEnd(x)
         [] x.p = "C18" -> Pure(x)
         [] x.p = "C19" -> Ascii(x)
         [] x.p = "C20" -> Mirror(x)
         [] x.p = "C21" -> Canonical(x)
         [] x.p = "C22" -> Recovery(x)
         [] x.p = "C23" -> Growth(x)
         [] x.p = "C24" -> Pipeline(x)
         [] x.p = "C25" -> Join(x)
         [] x.p = "C26" -> Held(x)
         [] x.p = "C27" -> Shifted(x)

\* (A variable called i would shadow the bound variables of Codec's constant
\* definitions, and TLC would evaluate those anew at every use.)
VARIABLE kase
Init == kase \in 1..Len(Cases)
Next == UNCHANGED kase
Judged == PrintT((IF Holds(Cases[kase]) THEN "@GOOD " ELSE "@BROKEN ") \o ToString(kase))
=============================================================================
