------------------------------ MODULE MCSched -------------------------------
(***************************************************************************)
(* Test schedules: random behaviours of the streaming machine (TLC            *)
(* -simulate), each printed when it ends, with every call the client made     *)
(* and what the specification says it returned, to be replayed step by step   *)
(* into the real code.  The source is grown first, so that it may be much     *)
(* longer than what MCStream can explore exhaustively.                        *)
(***************************************************************************)
EXTENDS MCStream, Json

CONSTANT MaxPieces

VARIABLES hist,   \* the calls so far: <<avail, cap, fin, ok, used, output length, error length>>
          size    \* pieces in the source

svars == <<vars, hist, size>>

SInit == /\ \E e \in Encs, d \in Dirs :
              /\ sess = [enc |-> e, dir |-> d, src |-> <<>>, ref |-> [out |-> <<>>]]
              /\ \E n \in 1..MaxPieces : size = n
         /\ avail = 0 /\ used = 0 /\ sink = <<>> /\ bad = {} /\ phase = "grow" /\ call = NoCall
         /\ hist = <<>>

Grow == /\ phase = "grow" /\ size > 0
        /\ \E p \in Pieces(sess.enc, sess.dir) : sess' = [sess EXCEPT !.src = @ \o p]
        /\ size' = size - 1
        /\ UNCHANGED <<avail, used, sink, bad, phase, call, hist>>
Start == /\ phase = "grow" /\ size = 0
         /\ sess' = [sess EXCEPT !.ref = Ref(sess.enc, sess.dir, sess.src)]
         /\ phase' = "idle"
         /\ UNCHANGED <<avail, used, sink, bad, call, hist, size>>

\* A client with a purpose: it uses a buffer that is too small at most every
\* other time, and calls at most once more when everything has been consumed.
LastCall == hist[Len(hist)]
Useful(cap, fin) == IF hist = <<>> THEN TRUE
               ELSE IF avail = used THEN avail = Len(sess.src) /\ LastCall[5] + LastCall[7] > 0
               ELSE IF cap < 4 THEN LastCall[2] >= 4
               ELSE LastCall[1] < avail \/ LastCall[5] > 0 \/ ~LastCall[4] \/ LastCall[2] < 4 \/ (fin /\ ~LastCall[3])
SBegin == \E cap \in Caps, fin \in BOOLEAN : Useful(cap, fin) = TRUE /\ Begin(cap, fin)
Client == (DoArrive \/ SBegin \/ Skip \/ Finish) /\ UNCHANGED <<hist, size>>
Note   == hist' = IF phase' = "busy" THEN hist
                  ELSE Append(hist, <<avail, call.cap, call.fin, phase' = "idle", used' - used, Len(call.out),
                                      IF phase' = "failed" THEN call'.n ELSE 0>>)
Code   == Lib /\ Note /\ UNCHANGED size

SNext == Grow \/ Start \/ Client \/ Code

\* The properties of MCStream hold along these longer behaviours too.
SPrefix == phase \notin {"grow"} => IsPrefix(sink, sess.ref.out)
SDone   == phase = "done" => sink = sess.ref.out /\ bad = sess.ref.bad
SExport == phase = "done" =>
             PrintT("@@" \o ToJson([e |-> sess.enc, d |-> sess.dir, w |-> sess.src, s |-> hist]))
=============================================================================
