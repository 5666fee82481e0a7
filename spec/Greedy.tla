------------------------------- MODULE Greedy -------------------------------
(***************************************************************************)
(* What a full buffer may and may not do (C12, C16, C23, C26, C27), for inputs*)
(* and buffers of any size.  A window of input begins with some whole        *)
(* characters; a call takes them one after the other and stops at the first  *)
(* that no longer fits.  All that is assumed is that every character takes   *)
(* up something, delivers at least one and at most four bytes, and is the    *)
(* same character when more input follows (for a window that is not the end).*)
(* MCGreedy has TLC check that of Codec, and that CallResults stops so.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Byte, Window,
          N(_),      \* how many whole characters window w begins with
          Pos(_, _), \* where the first i of them end
          Out(_, _), \* what they deliver
          Ext(_, _), \* Ext(w, v): v is w with more input
          Join(_, _, _) \* Join(p, s, v): v is p, all of it whole characters, and then s

Cost(w, i) == Len(Out(w, i))

TypeOk(w)  == /\ N(w) \in Nat
              /\ \A i \in 0..N(w) : Pos(w, i) \in Nat /\ Out(w, i) \in Seq(Byte)
              /\ Pos(w, 0) = 0 /\ Out(w, 0) = <<>>
GrowOk(w)  == \A i, j \in 0..N(w) : i < j => /\ Pos(w, i) < Pos(w, j) /\ Cost(w, i) < Cost(w, j)
                                             /\ \E t \in Seq(Byte) : Out(w, j) = Out(w, i) \o t
SmallOk(w) == \A i \in 0..(N(w) - 1) : Cost(w, i + 1) <= Cost(w, i) + 4
ExtOk(w, v) == /\ N(w) <= N(v)
               /\ \A i \in 0..N(w) : Pos(v, i) = Pos(w, i) /\ Out(v, i) = Out(w, i)
JoinOk(p, s, v) == /\ N(v) = N(p) + N(s)
                   /\ \A i \in 0..N(s) : /\ Pos(v, N(p) + i) = Pos(p, N(p)) + Pos(s, i)
                                         /\ Out(v, N(p) + i) = Out(p, N(p)) \o Out(s, i)

ASSUME Types  == \A w \in Window : TypeOk(w)
ASSUME Grows  == \A w \in Window : GrowOk(w)
ASSUME Smalls == \A w \in Window : SmallOk(w)
ASSUME Exts   == \A w, v \in Window : Ext(w, v) => ExtOk(w, v)
ASSUME Joins  == \A p, s, v \in Window : Join(p, s, v) => JoinOk(p, s, v)

\* With a buffer of c bytes the call stops after m characters.
Stops(w, c, m) == /\ m \in 0..N(w) /\ Cost(w, m) <= c
                  /\ m < N(w) => Cost(w, m + 1) > c
Begins(s, t) == \E r \in Seq(Byte) : t = s \o r

\* C12: there is exactly one such place, and nothing that fits is left out.
Exactly == \A w \in Window : \A c \in Nat :
             \E m \in 0..N(w) : /\ Stops(w, c, m)
                                /\ \A n \in 0..N(w) : Stops(w, c, n) => n = m
                                /\ \A n \in 0..N(w) : Cost(w, n) <= c => n <= m
\* C23: more room, or more input, revises nothing.
MoreRoom == \A w \in Window : \A c, d \in Nat : \A m, n \in 0..N(w) :
              (c <= d /\ Stops(w, c, m) /\ Stops(w, d, n)) =>
                 Pos(w, m) <= Pos(w, n) /\ Begins(Out(w, m), Out(w, n))
MoreInput == \A w, v \in Window : \A c \in Nat : \A m \in 0..N(w), n \in 0..N(v) :
              (Ext(w, v) /\ Stops(w, c, m) /\ Stops(v, c, n)) =>
                 Pos(w, m) <= Pos(v, n) /\ Begins(Out(w, m), Out(v, n))
\* C26: with four bytes to spare the call took every whole character.
Spare == \A w \in Window : \A c \in Nat : \A m \in 0..N(w) :
              (Stops(w, c, m) /\ c - Cost(w, m) >= 4) => m = N(w)
\* C16: with four bytes it takes at least one, if there is one.
Progress == \A w \in Window : \A c \in Nat : \A m \in 0..N(w) :
              (Stops(w, c, m) /\ c >= 4 /\ N(w) >= 1) => m >= 1 /\ Pos(w, m) > 0
\* C27: whole characters in front only shift a call.
Shifted == \A p, s, v \in Window : \A c \in Nat : \A m \in 0..N(s), n \in 0..N(v) :
              (Join(p, s, v) /\ Stops(s, c, m) /\ Stops(v, c + Cost(p, N(p)), n)) =>
                 /\ n = N(p) + m
                 /\ Pos(v, n) = Pos(p, N(p)) + Pos(s, m) /\ Out(v, n) = Out(p, N(p)) \o Out(s, m)
=============================================================================
