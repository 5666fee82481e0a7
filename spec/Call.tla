-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* One call of encode_from_str / decode_to_str, big-step: the set of results *)
(* allowed for a window `win` of input, an output buffer of `cap` bytes and  *)
(* the caller's statement `fin` that no more input follows.                  *)
(*                                                                           *)
(*   [ok |-> TRUE,  used |-> elements consumed, out |-> bytes written,        *)
(*    n |-> 0]                                                                *)
(*   [ok |-> FALSE, used |-> where the error range starts, out |-> bytes      *)
(*    written before it, n |-> length of the error range]                     *)
(*                                                                           *)
(* The result is unique but for two documented freedoms: an error need not    *)
(* be reported by a call whose buffer could not take one more unit of the     *)
(* largest size anyway, and MayErrEarly of Codec.                             *)
(***************************************************************************)
EXTENDS Codec

OkRes(used, out)      == [ok |-> TRUE,  used |-> used, out |-> out, n |-> 0]
ErrRes(used, n, out)  == [ok |-> FALSE, used |-> used, out |-> out, n |-> n]

MayStopShort(enc, dir, room) == room < MaxUnit(enc, dir)

RECURSIVE Run(_, _, _, _, _, _, _)
Run(enc, dir, win, cap, fin, pos, out) ==
  IF pos = Len(win) THEN {OkRes(pos, out)}
  ELSE UNION { CASE u.k = "emit" ->
                      LET o == Sink(dir, u.out) IN
                      IF Len(out) + Len(o) <= cap
                      THEN Run(enc, dir, win, cap, fin, pos + u.n, out \o o)
                      ELSE {OkRes(pos, out)}
                 [] u.k = "wait" -> {OkRes(pos, out)}
                 [] u.k = "err"  ->
                      {ErrRes(pos, u.n, out)} \cup
                      (IF MayStopShort(enc, dir, cap - Len(out)) THEN {OkRes(pos, out)} ELSE {})
             : u \in Units(enc, dir, Drop(win, pos), fin) }

CallResults(enc, dir, win, cap, fin) == Run(enc, dir, win, cap, fin, 0, <<>>)

-----------------------------------------------------------------------------
(* Declarative counterparts, used to state properties of CallResults.        *)

\* The whole characters of win up to its first error or incomplete tail:
\* <<position, output length>> after each of them, <<0, 0>> included.
RECURSIVE MarksFrom(_, _, _, _, _, _)
MarksFrom(enc, dir, win, fin, pos, len) ==
  {<<pos, len>>} \cup
  (IF pos = Len(win) THEN {}
   ELSE LET us == {x \in Units(enc, dir, Drop(win, pos), fin) : x.k = "emit"} IN
        IF us = {} THEN {}
        ELSE LET u == CHOOSE x \in us : TRUE
             IN  MarksFrom(enc, dir, win, fin, pos + u.n, len + Len(Sink(dir, u.out))))
Marks(enc, dir, win, fin) == MarksFrom(enc, dir, win, fin, 0, 0)

\* Where the leading run of whole characters ends, and why.
StopPos(enc, dir, win, fin) == Max({m[1] : m \in Marks(enc, dir, win, fin)})
StopUnits(enc, dir, win, fin) ==
  LET p == StopPos(enc, dir, win, fin) IN
  IF p = Len(win) THEN {} ELSE Units(enc, dir, Drop(win, p), fin)

\* C12: the last mark that fits the buffer.
Fitting(enc, dir, win, cap, fin) == {m \in Marks(enc, dir, win, fin) : m[2] <= cap}
Fit(enc, dir, win, cap, fin) ==
  LET F == Fitting(enc, dir, win, cap, fin) IN
  CHOOSE m \in F : \A x \in F : x[1] <= m[1]
=============================================================================
