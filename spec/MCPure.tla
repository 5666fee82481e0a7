------------------------------- MODULE MCPure -------------------------------
(* Three threads over calls whose result the specification leaves some choice *)
(* in (see MayStopShort, MayErrEarly): within one build of the library even   *)
(* those must always come out the same way.                                   *)
EXTENDS Pure
CONSTANTS Threads, Encs, MaxCalls
VARIABLE count
Args == {a \in [e : Encs, d : {"dec", "enc"}, w : {<<>>, <<224>>, <<224, 128>>, <<65, 255>>, <<128, 65>>, <<20170>>}, c : {1, 4}, f : BOOLEAN] :
            a.d = "dec" => \A k \in 1..Len(a.w) : a.w[k] < 256}
Free == {a \in Args : Cardinality(CallResults(a.e, a.d, a.w, a.c, a.f)) > 1}
Some == {a \in Args : a.w = <<128, 65>> /\ a.c = 4 /\ a.f}
Init == Idle(Threads) /\ count = 0
DoInvoke == /\ count < MaxCalls /\ count' = count + 1
            /\ \E t \in Threads, a \in Free \cup Some : Invoke(t, a)
DoReturn == /\ UNCHANGED count
            /\ \E t \in Threads : \E r \in (IF pend[t] = <<>> THEN {} ELSE
                 LET a == pend[t][1] IN CallResults(a.e, a.d, a.w, a.c, a.f)) : Return(t, r)
Next == DoInvoke \/ DoReturn
Spec == Init /\ [][Next]_<<pvars, count>>
\* Answers never change, and are answers the sequential specification allows.
Stable == [][answers \subseteq answers']_<<pvars, count>>
Lawful == \A p \in answers : p[2] \in CallResults(p[1].e, p[1].d, p[1].w, p[1].c, p[1].f)
NonTrivial == Free # {}
ASSUME NonTrivial
=============================================================================
