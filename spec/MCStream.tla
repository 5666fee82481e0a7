------------------------------ MODULE MCStream ------------------------------
(* The streaming machine over every source of up to Depth - 1 + Extra pieces, every way  *)
(* of chunking it and every sequence of buffer sizes from Caps.               *)
EXTENDS Stream, Alphabets

CONSTANTS Encs, Dirs, Extra, Caps, EarlyEnd

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Sources(e, d) == {Concat(ss) : ss \in UNION {[1..n -> Pieces(e, d)] : n \in 1..(Depth(e, d) - 1 + Extra)}}

Init == \E e \in Encs, d \in Dirs : \E s \in Sources(e, d) : Open(e, d, s)

\* With EarlyEnd the client may also call with fin = FALSE after all has
\* arrived (it does not know yet that the stream is over).
DoArrive == \E k \in 1..Len(sess.src) : Arrive(k)
DoBegin  == \E cap \in Caps, fin \in BOOLEAN :
              /\ (~EarlyEnd => fin = (avail = Len(sess.src)))
              /\ Begin(cap, fin)
Next == DoArrive \/ DoBegin \/ Skip \/ Finish \/ Lib
Spec == Init /\ [][Next]_vars

\* The client keeps delivering, keeps calling with a buffer of at least four
\* bytes (in between, with any), announces the end when it is there, skips
\* errors and stops when nothing is left; the library keeps running.
GoodBegin == \E cap \in Caps : cap >= 4 /\ Begin(cap, avail = Len(sess.src))
Fair == /\ SF_vars(DoArrive) /\ SF_vars(GoodBegin) /\ WF_vars(Skip) /\ SF_vars(Finish) /\ WF_vars(Lib)
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
Produced == sink \o (IF phase = "busy" THEN call.out ELSE <<>>)
Position == used + (IF phase = "busy" THEN call.pos ELSE 0)

\* C10 / C11: what has been produced never depends on the chunking.
C10Prefix == IsPrefix(Produced, sess.ref.out)
C10Done   == phase = "done" => sink = sess.ref.out /\ bad = sess.ref.bad
\* Consumed and produced always correspond: the output so far is exactly the
\* conversion of the source consumed so far.
C12Counts == Produced = Ref(sess.enc, sess.dir, SubSeq(sess.src, 1, Position)).out
\* C14 / C15: an error is always reported at a place the reference also rejects.
C15Bad    == bad \subseteq sess.ref.bad
C15First  == (phase = "failed" /\ bad = {}) =>
               /\ sess.ref.errs # <<>>
               /\ used = sess.ref.errs[1][1] /\ Len(sink) = sess.ref.errs[1][3]
C19NoAscii == (sess.enc \in AsciiNames /\ sess.dir = "dec") => \A i \in bad : sess.src[i + 1] >= 128
\* The small-step machine computes what the big-step definition says.
StepsAgree ==
  [][ (phase = "busy" /\ phase' # "busy") =>
        LET r == IF phase' = "failed"
                 THEN [ok |-> FALSE, used |-> used' - used, out |-> call.out, n |-> call'.n]
                 ELSE [ok |-> TRUE,  used |-> used' - used, out |-> call.out, n |-> 0]
        IN  r \in CallResults(sess.enc, sess.dir, Window, call.cap, call.fin) ]_vars
\* C16
C16Step ==
  [][ (phase = "busy" /\ phase' = "idle" /\ Window # <<>> /\ call.cap >= 4) =>
        used' > used \/ (~call.fin /\ \E u \in Here : u.k = "wait") ]_vars
C16Terminates == <>(phase = "done")
=============================================================================
