------------------------------ MODULE MCGreedy ------------------------------
(***************************************************************************)
(* Binds the proofs of Greedy to the specification: the characters of Codec  *)
(* are as Greedy assumes, and CallResults stops where Greedy says.  TLC      *)
(* checks both for every window MCCall knows.                                *)
(***************************************************************************)
EXTENDS MCCall

\* A window with its whole characters.
W(s, fin) ==
  LET ms == TLCEval(SetToSortSeq(Marks(enc, dir, s, fin), LAMBDA a, b : a[1] < b[1]))
  IN  [enc |-> enc, dir |-> dir, fin |-> fin, win |-> s, pos |-> TLCEval([i \in 1..Len(ms) |-> ms[i][1]]),
       out |-> TLCEval([i \in 1..Len(ms) |-> Ref(enc, dir, SubSeq(s, 1, ms[i][1])).out])]
GN(w) == Len(w.pos) - 1
GPos(w, i) == w.pos[i + 1]
GOut(w, i) == w.out[i + 1]
GExt(w, v) == ~w.fin /\ w.enc = v.enc /\ w.dir = v.dir /\ IsPrefix(w.win, v.win)
GJoin(p, s, v) == /\ ~p.fin /\ p.enc = v.enc /\ p.dir = v.dir /\ s.enc = v.enc /\ s.dir = v.dir /\ s.fin = v.fin
                  /\ v.win = p.win \o s.win /\ GPos(p, GN(p)) = Len(p.win)

Abs == INSTANCE Greedy WITH Byte <- 0..255, Window <- {W(win, f) : f \in BOOLEAN}, N <- GN, Pos <- GPos, Out <- GOut, Ext <- GExt, Join <- GJoin

IsBytes(o) == \A i \in 1..Len(o) : o[i] \in 0..255
TypesHere(w) == /\ GPos(w, 0) = 0 /\ GOut(w, 0) = <<>>
                /\ \A i \in 0..GN(w) : GPos(w, i) \in 0..Len(win) /\ IsBytes(GOut(w, i))
GrowsHere(w) == \A i, j \in 0..GN(w) : i < j => /\ GPos(w, i) < GPos(w, j) /\ Abs!Cost(w, i) < Abs!Cost(w, j)
                                                /\ IsPrefix(GOut(w, i), GOut(w, j))
Assumed == \A f \in BOOLEAN : LET w == W(win, f) IN TypesHere(w) /\ GrowsHere(w) /\ Abs!SmallOk(w)
JoinsHere == \A k \in 0..Len(win), f \in BOOLEAN :
               LET p == W(SubSeq(win, 1, k), FALSE)  s == W(Drop(win, k), f)  v == W(win, f)
               IN  GJoin(p, s, v) => Abs!JoinOk(p, s, v)
\* (An encoder that takes no is_end reads every call as the last.)
ExtHere == [][LET w == W(win, FALSE) IN \A f \in BOOLEAN : LET v == W(win', f) IN Abs!ExtOk(w, v)]_vars

\* The calls of Call stop where Greedy says, with what it says.
Same == \A f \in BOOLEAN : LET w == W(win, f) IN
          \A cap \in Caps : \A r \in Res(cap, f) :
            \E m \in 0..GN(w) : Abs!Stops(w, cap, m) /\ r.used = GPos(w, m) /\ r.out = GOut(w, m)
=============================================================================
