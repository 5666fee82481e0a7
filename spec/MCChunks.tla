------------------------------ MODULE MCChunks ------------------------------
(***************************************************************************)
(* Binds the proof of Chunks to the specification: the units of Codec are as *)
(* Chunks assumes, and Stream is an instance of its machine.  TLC checks     *)
(* both for every source MCStream knows; the theorem then speaks of Stream   *)
(* for all of them whatever the schedule.                                    *)
(***************************************************************************)
EXTENDS MCStream

AllSources == UNION {{[enc |-> e, dir |-> d, src |-> s, ref |-> Ref(e, d, s)] : s \in Sources(e, d)} : e \in Encs, d \in Dirs}
SSize(s) == Len(s.src)
SUnit(s, p, a, f) == {[k |-> u.k, n |-> u.n, out |-> Sink(s.dir, u.out)] : u \in Units(s.enc, s.dir, SubSeq(s.src, p + 1, a), f)}
SRefOut(s, p) == Ref(s.enc, s.dir, SubSeq(s.src, 1, p)).out
SBad(s) == s.ref.bad
RECURSIVE Bounds(_, _)
Bounds(s, p) == {p} \cup (IF p = Len(s.src) THEN {}
                          ELSE LET u == CHOOSE x \in Units(s.enc, s.dir, Drop(s.src, p), TRUE) : TRUE
                               IN  Bounds(s, p + u.n))
\* Between characters; and inside an UTF-8 error range, which a decoder may
\* report in two pieces when its bytes arrive in two (see MayErrEarly).
SGood(s) == Bounds(s, 0) \cup (IF s.enc = "utf8" /\ s.dir = "dec" THEN {p \in s.ref.bad : p - 1 \in s.ref.bad /\ p >= 1 /\ RunByte(s.src[p + 1])} ELSE {})

Abs == INSTANCE Chunks WITH Byte <- 0..255, Texts <- AllSources, Size <- SSize, Unit <- SUnit,
                            RefOut <- SRefOut, Good <- SGood, Bad <- SBad

\* The assumptions, for the source at hand.
IsBytes(o) == \A i \in 1..Len(o) : o[i] \in 0..255
GrowsHere == \A p \in SGood(sess) : IsPrefix(SRefOut(sess, p), SRefOut(sess, SSize(sess)))
UnitHere  == \A p, a \in 0..SSize(sess) : \A f \in BOOLEAN : p < a =>
               \A u \in SUnit(sess, p, a, f) : u.k \in {"emit", "err", "wait"} /\ u.n >= 0 /\ IsBytes(u.out)
Assumed == (phase = "idle" /\ avail = 0) =>
             /\ Abs!SizeOk(sess) /\ UnitHere /\ Abs!RefOk(sess) /\ Abs!EndsOk(sess) /\ GrowsHere /\ Abs!LocalOk(sess)
\* Every step of Stream is one of the machine that Chunks is about.
IsInstance == [][Abs!Next]_vars
InvHere == /\ Abs!Busy /\ Abs!Failed
           /\ Abs!Produced = SRefOut(sess, Abs!Position)
           /\ bad = {i \in SBad(sess) : i < used}
\* For longer sources: the assumptions alone, no streaming.
Still == UNCHANGED vars
=============================================================================
