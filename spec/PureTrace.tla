------------------------------ MODULE PureTrace -----------------------------
(* Recorded concurrent histories of the real code, event by event in the order *)
(* a global counter gave them, as behaviours of Pure.                          *)
EXTENDS Pure, IOUtils
Hist == ndJsonDeserialize(IOEnv.HISTORY)
VARIABLES hi, at
Threads(h) == {Hist[h].ev[k].t : k \in 1..Len(Hist[h].ev)}
Init == hi \in 1..Len(Hist) /\ at = 0 /\ Idle(Threads(hi))
E  == Hist[hi].ev[at + 1]
ArgsOf(v) == [e |-> v.e, d |-> v.d, w |-> v.w, c |-> v.c, f |-> v.f]
Next == /\ at < Len(Hist[hi].ev)
        /\ at' = at + 1 /\ UNCHANGED hi
        /\ \/ E.k = "inv" /\ Invoke(E.t, ArgsOf(E))
           \/ E.k = "ret" /\ Return(E.t, E.r)
Accepted == (at = Len(Hist[hi].ev)) => PrintT("@ACCEPT " \o ToString(hi))
\* How far an unaccepted history got.
Reached == (at < Len(Hist[hi].ev) /\ ~ENABLED Next) => PrintT("@STUCK " \o ToString(hi) \o " " \o ToString(at + 1))
=============================================================================
