------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* Why chunking cannot matter (C10, C11, C15, C22), proved once and for all: *)
(* for sources of any length, any division into chunks, any sequence of      *)
(* buffer sizes and any moments at which calls return.                       *)
(*                                                                           *)
(* The machine is Stream's, with two things abstracted: what the units mean  *)
(* (the constants below) and when the library returns (at any time).  All    *)
(* that is assumed about the units is Local: seen from a position a client   *)
(* can stand at, a unit says the same about the source however much of the   *)
(* source has arrived.  MCChunks has TLC check that assumption for the units *)
(* of Codec, and that Stream is an instance of this machine.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Byte,
          Texts,         \* what may be converted
          Size(_),         \* Size(s): number of elements of s
          Unit(_, _, _, _),\* Unit(s, p, a, f): outcomes at p when a elements have arrived
          RefOut(_, _),    \* RefOut(s, p): the output of the first p elements of s
          Good(_),         \* Good(s): positions a client can stand at
          Bad(_)           \* Bad(s): positions in error ranges

Outcome == [k : {"emit", "err", "wait"}, n : Nat, out : Seq(Byte)]

\* What is assumed of a source s.
SizeOk(s) == Size(s) \in Nat
UnitOk(s) == \A p, a \in 0..Size(s) : \A f \in BOOLEAN : p < a => Unit(s, p, a, f) \subseteq Outcome
RefOk(s)  == /\ Good(s) \subseteq 0..Size(s)
             /\ Bad(s) \subseteq 0..(Size(s) - 1)
             /\ \A p \in Good(s) : RefOut(s, p) \in Seq(Byte)
EndsOk(s) == 0 \in Good(s) /\ RefOut(s, 0) = <<>> /\ Size(s) \in Good(s)
GrowsOk(s) == \A p \in Good(s) : \E t \in Seq(Byte) : RefOut(s, Size(s)) = RefOut(s, p) \o t

EmitLocal(s, p, a, u) == /\ u.n >= 1 /\ p + u.n <= a /\ p + u.n \in Good(s)
                         /\ RefOut(s, p + u.n) = RefOut(s, p) \o u.out
                         /\ \A i \in p..(p + u.n - 1) : i \notin Bad(s)
ErrLocal(s, p, a, u)  == /\ u.n >= 1 /\ p + u.n <= a /\ p + u.n \in Good(s)
                         /\ RefOut(s, p + u.n) = RefOut(s, p)
                         /\ \A i \in p..(p + u.n - 1) : i \in Bad(s)
LocalOk(s) ==
  \A p \in Good(s) : \A a \in 0..Size(s) : \A f \in BOOLEAN :
    (p < a /\ (f => a = Size(s))) =>
      \A u \in Unit(s, p, a, f) : /\ u.k = "emit" => EmitLocal(s, p, a, u)
                                  /\ u.k = "err"  => ErrLocal(s, p, a, u)

ASSUME SizeType == \A s \in Texts : SizeOk(s)
ASSUME UnitType == \A s \in Texts : UnitOk(s)
ASSUME RefType  == \A s \in Texts : RefOk(s)
ASSUME RefEnds  == \A s \in Texts : EndsOk(s)
ASSUME RefGrows == \A s \in Texts : GrowsOk(s)
ASSUME Local    == \A s \in Texts : LocalOk(s)

-----------------------------------------------------------------------------
VARIABLES sess, avail, used, sink, bad, phase, call
vars == <<sess, avail, used, sink, bad, phase, call>>

CallType == [cap : Nat, fin : BOOLEAN, pos : Nat, out : Seq(Byte), n : Nat]
NoCall == [cap |-> 0, fin |-> FALSE, pos |-> 0, out |-> <<>>, n |-> 0]

Init == /\ sess \in Texts
        /\ avail = 0 /\ used = 0 /\ sink = <<>> /\ bad = {} /\ phase = "idle" /\ call = NoCall

Arrive == /\ phase = "idle"
          /\ \E b \in 0..Size(sess) : avail < b /\ avail' = b
          /\ UNCHANGED <<sess, used, sink, bad, phase, call>>
Begin == /\ phase = "idle"
         /\ call'.cap \in Nat /\ call'.fin \in BOOLEAN
         /\ call'.fin => avail = Size(sess)
         /\ call' = [cap |-> call'.cap, fin |-> call'.fin, pos |-> 0, out |-> <<>>, n |-> 0]
         /\ phase' = "busy"
         /\ UNCHANGED <<sess, avail, used, sink, bad>>
Skip == /\ phase = "failed"
        /\ used' = used + call.n
        /\ bad' = bad \cup {i \in 0..(Size(sess) - 1) : used <= i /\ i < used + call.n}
        /\ phase' = "idle" /\ call' = NoCall
        /\ UNCHANGED <<sess, avail, sink>>
Finish == /\ phase = "idle" /\ avail = Size(sess) /\ used = avail
          /\ phase' = "done" /\ call' = NoCall
          /\ UNCHANGED <<sess, avail, used, sink, bad>>

Here == Unit(sess, used + call.pos, avail, call.fin)
More == phase = "busy" /\ used + call.pos < avail
Emit == /\ More
        /\ \E u \in Here : /\ u.k = "emit"
                           /\ call' = [cap |-> call.cap, fin |-> call.fin, pos |-> call.pos + u.n,
                                       out |-> call.out \o u.out, n |-> call.n]
        /\ UNCHANGED <<sess, avail, used, sink, bad, phase>>
Return == /\ phase = "busy"
          /\ phase' = "idle"
          /\ used' = used + call.pos /\ sink' = sink \o call.out
          /\ call' = NoCall
          /\ UNCHANGED <<sess, avail, bad>>
Fail == /\ More
        /\ \E u \in Here : u.k = "err" /\ call' = [cap |-> call.cap, fin |-> call.fin, pos |-> call.pos, out |-> call.out, n |-> u.n]
        /\ phase' = "failed"
        /\ used' = used + call.pos /\ sink' = sink \o call.out
        /\ UNCHANGED <<sess, avail, bad>>

Next == Arrive \/ Begin \/ Skip \/ Finish \/ Emit \/ Return \/ Fail
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Produced == IF phase = "busy" THEN sink \o call.out ELSE sink
Position == IF phase = "busy" THEN used + call.pos ELSE used

TypeOK == /\ sess \in Texts
          /\ avail \in 0..Size(sess) /\ used \in 0..avail
          /\ sink \in Seq(Byte) /\ call \in CallType
          /\ phase \in {"idle", "busy", "failed", "done"}
Busy   == phase = "busy" => /\ used + call.pos <= avail
                            /\ call.fin => avail = Size(sess)
                            /\ \A i \in used..(used + call.pos - 1) : i \notin Bad(sess)
Failed == phase = "failed" => /\ used + call.n <= avail
                              /\ used + call.n \in Good(sess)
                              /\ RefOut(sess, used + call.n) = RefOut(sess, used)
                              /\ \A i \in used..(used + call.n - 1) : i \in Bad(sess)
Inv == /\ TypeOK /\ Busy /\ Failed
       /\ Position \in Good(sess)
       /\ Produced = RefOut(sess, Position)
       /\ bad = {i \in Bad(sess) : i < used}
       /\ phase = "done" => used = Size(sess)

\* C10, C11: whatever the schedule, the output so far begins the whole output,
\* and it is the whole output when the client is done; the same for what was
\* skipped (C15, C22).  C12: consumed and produced always correspond.
Prefix  == \E t \in Seq(Byte) : RefOut(sess, Size(sess)) = Produced \o t
Counts  == Produced = RefOut(sess, Position)
Skipped == bad \subseteq Bad(sess)
Done    == phase = "done" => sink = RefOut(sess, Size(sess)) /\ bad = Bad(sess)
=============================================================================
