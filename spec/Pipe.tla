-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Transcoding: a client that decodes a byte stream from one encoding and    *)
(* encodes the text into another, with a bounded buffer for each call and    *)
(* the text that the encoder has not taken yet carried over.  Calls are      *)
(* big-step (Call).  The client stops at the first thing that cannot be      *)
(* converted; on a decode error it first flushes the text before it.         *)
(***************************************************************************)
EXTENDS Call

VARIABLES from, to,  \* the two encodings
          src,       \* the byte stream
          avail,     \* bytes that have arrived
          used,      \* bytes the decoder has consumed
          text,      \* scalars delivered by the decoder so far
          taken,     \* scalars the encoder has consumed
          sink,      \* bytes the encoder has delivered
          phase      \* "run", "bad" (decode error; flushing), "undecodable", "unencodable", "done"
pvars == <<from, to, src, avail, used, text, taken, sink, phase>>

RECURSIVE Scalars(_, _)
\* The scalars of well-formed UTF-8.
Scalars(bytes, acc) == IF bytes = <<>> THEN acc
                       ELSE LET u == CHOOSE q \in DecUnits("utf8", bytes, TRUE) : TRUE
                            IN  Scalars(Drop(bytes, u.n), acc \o u.out)

Open(e1, e2, s) == /\ from = e1 /\ to = e2 /\ src = s
                   /\ avail = 0 /\ used = 0 /\ text = <<>> /\ taken = 0 /\ sink = <<>> /\ phase = "run"

Arrive(k) == /\ phase = "run" /\ k >= 1 /\ avail + k <= Len(src)
             /\ avail' = avail + k
             /\ UNCHANGED <<from, to, src, used, text, taken, sink, phase>>

Decoded == phase = "bad" \/ (avail = Len(src) /\ used = avail)

Decode(cap, fin) ==
  /\ phase = "run" /\ (fin => avail = Len(src))
  /\ \E r \in CallResults(from, "dec", SubSeq(src, used + 1, avail), cap, fin) :
       /\ used' = used + r.used
       /\ text' = text \o Scalars(r.out, <<>>)
       /\ phase' = IF r.ok THEN "run" ELSE "bad"
  /\ UNCHANGED <<from, to, src, avail, taken, sink>>

Encode(cap, fin) ==
  /\ phase \in {"run", "bad"} /\ (fin => Decoded)
  /\ \E r \in CallResults(to, "enc", Drop(text, taken), cap, fin) :
       /\ taken' = taken + r.used
       /\ sink' = sink \o r.out
       /\ phase' = IF r.ok THEN phase ELSE "unencodable"
  /\ UNCHANGED <<from, to, src, avail, used, text>>

Finish == /\ phase \in {"run", "bad"} /\ Decoded /\ taken = Len(text)
          /\ phase' = IF phase = "run" THEN "done" ELSE "undecodable"
          /\ UNCHANGED <<from, to, src, avail, used, text, taken, sink>>

-----------------------------------------------------------------------------
(* The same conversion in two calls with all the room in the world. *)
Best(rs)    == CHOOSE r \in rs : TRUE
Plenty      == 1000
WholeDec    == Best(CallResults(from, "dec", src, Plenty, TRUE))
WholeText   == Scalars(WholeDec.out, <<>>)
WholeEnc    == Best(CallResults(to, "enc", WholeText, Plenty, TRUE))
=============================================================================
