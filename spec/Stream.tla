------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A client streaming a source through the library, small-step.  One action *)
(* per step of the library's loop (Emit, StopFull, StopWait, StopDone, Fail) *)
(* and one per step of the client (Arrive, Begin, Skip, Finish).             *)
(***************************************************************************)
EXTENDS Call

VARIABLES sess,   \* [enc, dir, src, ref]: what is being converted; ref = Ref(...)
          avail,  \* source elements that have arrived
          used,   \* source elements consumed or skipped
          sink,   \* bytes the client has collected
          bad,    \* positions the client skipped because of errors
          phase,  \* "idle", "busy" (in a call), "failed" (call returned Err), "done"
          call    \* the call in progress / last call: [cap, fin, pos, out, n]

vars == <<sess, avail, used, sink, bad, phase, call>>

NoCall == [cap |-> 0, fin |-> FALSE, pos |-> 0, out |-> <<>>, n |-> 0]

Open(enc, dir, src) ==
  /\ sess  = [enc |-> enc, dir |-> dir, src |-> src, ref |-> Ref(enc, dir, src)]
  /\ avail = 0 /\ used = 0 /\ sink = <<>> /\ bad = {} /\ phase = "idle" /\ call = NoCall

Window == SubSeq(sess.src, used + 1, avail)
Rest   == Drop(Window, call.pos)
Room   == call.cap - Len(call.out)
Here   == Units(sess.enc, sess.dir, Rest, call.fin)

-----------------------------------------------------------------------------
(* The client *)

Arrive(k) == /\ phase = "idle" /\ k >= 1 /\ avail + k <= Len(sess.src)
             /\ avail' = avail + k
             /\ UNCHANGED <<sess, used, sink, bad, phase, call>>

Begin(cap, fin) == /\ phase = "idle"
                   /\ fin => avail = Len(sess.src)
                   /\ call' = [cap |-> cap, fin |-> fin, pos |-> 0, out |-> <<>>, n |-> 0]
                   /\ phase' = "busy"
                   /\ UNCHANGED <<sess, avail, used, sink, bad>>

Skip == /\ phase = "failed"
        /\ used' = used + call.n
        /\ bad'  = bad \cup {used + i : i \in 0..(call.n - 1)}
        /\ phase' = "idle" /\ call' = NoCall
        /\ UNCHANGED <<sess, avail, sink>>

Finish == /\ phase = "idle" /\ avail = Len(sess.src) /\ used = avail
          /\ phase' = "done" /\ call' = NoCall
          /\ UNCHANGED <<sess, avail, used, sink, bad>>

-----------------------------------------------------------------------------
(* The library *)

Emission(u) == /\ u.k = "emit"
               /\ LET o == Sink(sess.dir, u.out) IN
                  /\ Len(o) <= Room
                  /\ call' = [call EXCEPT !.pos = @ + u.n, !.out = @ \o o]
               /\ UNCHANGED <<sess, avail, used, sink, bad, phase>>

Return == /\ phase' = "idle"
          /\ used' = used + call.pos /\ sink' = sink \o call.out
          /\ call' = NoCall
          /\ UNCHANGED <<sess, avail, bad>>

Emit1    == phase = "busy" /\ Rest # <<>> /\ \E u \in Here : Emission(u)
StopDone == phase = "busy" /\ Rest = <<>> /\ Return
StopWait == phase = "busy" /\ Rest # <<>> /\ (\E u \in Here : u.k = "wait") /\ Return
StopFull == /\ phase = "busy" /\ Rest # <<>>
            /\ \E u \in Here : \/ u.k = "emit" /\ Len(Sink(sess.dir, u.out)) > Room
                               \/ u.k = "err" /\ MayStopShort(sess.enc, sess.dir, Room)
            /\ Return
Failure(u) == /\ u.k = "err"
              /\ phase' = "failed"
              /\ used' = used + call.pos /\ sink' = sink \o call.out
              /\ call' = [call EXCEPT !.n = u.n]
              /\ UNCHANGED <<sess, avail, bad>>
Fail == phase = "busy" /\ Rest # <<>> /\ \E u \in Here : Failure(u)

Lib == Emit1 \/ StopDone \/ StopWait \/ StopFull \/ Fail
=============================================================================
