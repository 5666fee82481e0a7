-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* Threads calling the library at the same time.  The library has no state:  *)
(* for each argument tuple there is one answer, the same in every history.    *)
(* `answers` is the part of that function that has been seen so far; a call   *)
(* that returns fixes the answer to its arguments if it is the first to.      *)
(***************************************************************************)
EXTENDS Call, Alphabets

VARIABLES pend,     \* thread -> arguments of the call in progress, or <<>>
          answers   \* set of <<arguments, result>> seen

pvars == <<pend, answers>>

Idle(T) == pend = [t \in T |-> <<>>] /\ answers = {}
Invoke(t, a) == /\ pend[t] = <<>>
                /\ pend' = [pend EXCEPT ![t] = <<a>>]
                /\ UNCHANGED answers
Answered(a) == \E p \in answers : p[1] = a
Return(t, r) == /\ pend[t] # <<>>
                /\ LET a == pend[t][1] IN
                   /\ Answered(a) => <<a, r>> \in answers
                   /\ answers' = answers \cup {<<a, r>>}
                /\ pend' = [pend EXCEPT ![t] = <<>>]

\* What purity means: answers is a function.
OneAnswer == \A p, q \in answers : p[1] = q[1] => p[2] = q[2]
=============================================================================
