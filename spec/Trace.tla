------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: are executions recorded from the real code behaviours   *)
(* of the streaming machine?  CASES names the recorded cases (see Judge).    *)
(* Every call of a case is the trace of a client that makes one call; every  *)
(* session (s1, s2) is the trace of a client that streams.  Only the calls    *)
(* and their results are recorded; Arrive, Skip and the library's Emit steps  *)
(* are inferred.  A trace that reaches its end prints "@ACCEPT".              *)
(***************************************************************************)
EXTENDS Stream, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

One(c)     == [enc |-> c.e, dir |-> c.d, src |-> c.w, steps |-> <<[c EXCEPT !.b = 0]>>]
Sess(x, s) == [enc |-> x.e, dir |-> x.d, src |-> x.src, steps |-> s]
\* (the second session of a transcoding case is fed from the text)
Sess2(x)   == IF x.p = "C24" THEN [enc |-> x.s2[1].e, dir |-> "enc", src |-> x.text, steps |-> x.s2]
                             ELSE Sess(x, x.s2)
TracesOf(x) == [k \in 1..Len(x.calls) |-> One(x.calls[k])]
               \o (IF x.s1 = <<>> THEN <<>> ELSE <<Sess(x, x.s1)>>)
               \o (IF x.s2 = <<>> THEN <<>> ELSE <<Sess2(x)>>)
Traces == FlattenSeq([k \in 1..Len(Cases) |-> TracesOf(Cases[k])])

VARIABLES tr,    \* which trace
          done   \* how many of its calls have returned

tvars == <<vars, tr, done>>

Steps == Traces[tr].steps
Step  == Steps[done + 1]
More  == done < Len(Steps)

Init == /\ tr \in 1..Len(Traces)
        /\ done = 0
        /\ Open(Traces[tr].enc, Traces[tr].dir, Traces[tr].src)

RECURSIVE BytePos(_, _, _, _)
BytePos(s, raw, k, acc) == IF acc = raw THEN k
                           ELSE IF acc > raw \/ k = Len(s) THEN -1
                           ELSE BytePos(s, raw, k + 1, acc + Utf8Len(s[k + 1]))
At(raw) == IF sess.dir = "dec" THEN raw ELSE BytePos(Window, raw, 0, 0)

TArrive == /\ More /\ Step.b = used
           /\ Arrive(used + Len(Step.w) - avail)
           /\ UNCHANGED <<tr, done>>
TBegin  == /\ More /\ Step.b = used /\ avail = used + Len(Step.w) /\ Step.w = Window
           /\ Begin(Step.c, Step.f)
           /\ UNCHANGED <<tr, done>>
TEmit   == /\ More /\ Emit1 /\ IsPrefix(call'.out, Step.o)
           /\ UNCHANGED <<tr, done>>
Sane    == Step.at /\ ~Step.oob /\ Step.wr = Len(Step.o)
TReturn == /\ More /\ phase = "busy" /\ Step.k = "ok" /\ Sane
           /\ call.pos = At(Step.u) /\ call.out = Step.o
           /\ (StopDone \/ StopWait \/ StopFull)
           /\ done' = done + 1 /\ UNCHANGED tr
TFail   == /\ More /\ phase = "busy" /\ Step.k = "err" /\ Sane /\ Step.cs = 0
           /\ call.pos = At(Step.u) /\ call.out = Step.o
           /\ (sess.dir = "dec" \/ (Rest # <<>> /\ Step.ch = Head(Rest)))
           /\ Fail /\ call'.n = At(Step.n) - At(Step.u)
           /\ done' = done + 1 /\ UNCHANGED tr
TSkip   == More /\ Skip /\ UNCHANGED <<tr, done>>

Next == TArrive \/ TBegin \/ TEmit \/ TReturn \/ TFail \/ TSkip

\* What holds of every behaviour of Stream holds along the recorded ones too.
AlongRef == IsPrefix(sink, sess.ref.out)
Accepted == (done = Len(Steps) /\ phase # "busy") => PrintT("@ACCEPT " \o ToString(tr))
Total    == (tr = 1 /\ done = 0 /\ phase = "idle" /\ avail = 0) => PrintT("@TRACES " \o ToString(Len(Traces)))
=============================================================================
