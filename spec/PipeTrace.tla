----------------------------- MODULE PipeTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded transcoding clients: is each a behaviour of  *)
(* Pipe?  log tells the order of the decoder's (s1) and encoder's (s2) calls; *)
(* Arrive and Finish are inferred.                                           *)
(***************************************************************************)
EXTENDS Pipe, IOUtils

Cases == SelectSeq(ndJsonDeserialize(IOEnv.CASES), LAMBDA x : x.p = "C24" /\ Len(x.log) > 0)

VARIABLES tr, done
tvars == <<pvars, tr, done>>

X    == Cases[tr]
\* how many of the first n steps were calls of kind w
RECURSIVE Count(_, _, _)
Count(log, w, n) == IF n = 0 THEN 0 ELSE Count(log, w, n - 1) + (IF log[n] = w THEN 1 ELSE 0)
More == done < Len(X.log)
Kind == X.log[done + 1]
Step == IF Kind = 1 THEN X.s1[Count(X.log, 1, done + 1)] ELSE X.s2[Count(X.log, 2, done + 1)]

Init == /\ tr \in 1..Len(Cases)
        /\ done = 0
        /\ Open(X.e, IF X.s2 = <<>> THEN "utf8" ELSE X.s2[1].e, X.src)

RECURSIVE BytePos(_, _, _, _)
BytePos(s, raw, k, acc) == IF acc = raw THEN k
                           ELSE IF acc > raw \/ k = Len(s) THEN -1
                           ELSE BytePos(s, raw, k + 1, acc + Utf8Len(s[k + 1]))
Sane == Step.at /\ ~Step.oob /\ Step.wr = Len(Step.o) /\ Step.cs = 0

TArrive == /\ More /\ Kind = 1 /\ Step.b = used
           /\ Arrive(used + Len(Step.w) - avail)
           /\ UNCHANGED <<tr, done>>
TDecode == /\ More /\ Kind = 1 /\ Sane /\ Step.b = used /\ avail = used + Len(Step.w)
           /\ Step.w = SubSeq(src, used + 1, avail)
           /\ Decode(Step.c, Step.f)
           /\ used' = used + Step.u
           /\ text' = text \o Scalars(Step.o, <<>>)
           /\ phase' = IF Step.k = "ok" THEN "run" ELSE "bad"
           /\ Step.k \in {"ok", "err"}
           /\ done' = done + 1 /\ UNCHANGED tr
TEncode == /\ More /\ Kind = 2 /\ Sane /\ Step.b = taken /\ Step.w = Drop(text, taken)
           /\ Encode(Step.c, Step.f)
           /\ taken' = taken + BytePos(Step.w, Step.u, 0, 0)
           /\ sink' = sink \o Step.o
           /\ (phase' = "unencodable") = (Step.k = "err")
           /\ Step.k \in {"ok", "err"}
           /\ done' = done + 1 /\ UNCHANGED tr
TFinish == done = Len(X.log) /\ Finish /\ UNCHANGED <<tr, done>>
Next == TArrive \/ TDecode \/ TEncode \/ TFinish

AlongWhole == IsPrefix(text, WholeText) /\ IsPrefix(sink, WholeEnc.out)
Ended      == phase \in {"done", "undecodable", "unencodable"}
Accepted   == (done = Len(X.log) /\ Ended) => PrintT("@ACCEPT " \o ToString(tr))
Total      == (tr = 1 /\ done = 0 /\ avail = 0) => PrintT("@TRACES " \o ToString(Len(Cases)))
=============================================================================
