----------------------------- MODULE Transcode -----------------------------
(***************************************************************************)
(* Why transcoding in pieces equals transcoding in one go (C24), proved for   *)
(* streams of any length and all schedules.  The machine is Pipe's, with the *)
(* results of calls abstracted: all that is assumed of them is that a call   *)
(* made at a position a client can stand at moves to another such position,  *)
(* delivers what lies between the two, and fails only where the whole        *)
(* conversion fails.  MCTranscode has TLC check that of Codec and Call, and  *)
(* that Pipe is an instance of this machine.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Char, Byte, Cap,
          Jobs,                  \* a stream and the two encodings
          Size(_),               \* bytes in the stream
          Dec(_, _, _, _, _),    \* Dec(s, p, a, cap, fin): results of decoding bytes p+1..a
          Text(_, _),            \* Text(s, p): the text of the first p bytes
          DGood(_),              \* positions in the stream a client can stand at
          DEnd(_), DOk(_),       \* where the whole decode ends, and whether without an error
          Enc(_, _, _, _, _),    \* Enc(s, i, j, cap, fin): results of encoding characters i+1..j
          Out(_, _),             \* Out(s, i): the encoding of the first i characters
          EGood(_), EEnd(_), EOk(_)

Result(S) == [ok : BOOLEAN, used : Nat, out : Seq(S)]
Whole(s) == Text(s, DEnd(s))

\* What is assumed of a job s.
TypesOk(s) ==
  /\ Size(s) \in Nat /\ DGood(s) \subseteq 0..Size(s) /\ DEnd(s) \in DGood(s) /\ DOk(s) \in BOOLEAN
  /\ \A p \in DGood(s) : /\ Text(s, p) \in Seq(Char) /\ p <= DEnd(s)
                         /\ Len(Text(s, p)) <= Len(Whole(s))
                         /\ \E t \in Seq(Char) : Whole(s) = Text(s, p) \o t
  /\ EGood(s) \subseteq 0..Len(Whole(s)) /\ EEnd(s) \in EGood(s) /\ EOk(s) \in BOOLEAN
  /\ \A i \in EGood(s) : /\ Out(s, i) \in Seq(Byte) /\ i <= EEnd(s)
                         /\ \E t \in Seq(Byte) : Out(s, EEnd(s)) = Out(s, i) \o t
StartsOk(s) == 0 \in DGood(s) /\ Text(s, 0) = <<>> /\ 0 \in EGood(s) /\ Out(s, 0) = <<>>
EndsOk(s) == /\ DOk(s) <=> DEnd(s) = Size(s)
             /\ EOk(s) <=> EEnd(s) = Len(Whole(s))
DecLocal(s, p, a, r) == /\ p + r.used <= a /\ p + r.used \in DGood(s)
                        /\ Text(s, p + r.used) = Text(s, p) \o r.out
                        /\ ~r.ok => p + r.used = DEnd(s) /\ ~DOk(s)
DecOk(s) ==
  \A p \in DGood(s) : \A a \in 0..Size(s) : \A cap \in Cap : \A fin \in BOOLEAN :
    (p <= a /\ (fin => a = Size(s))) =>
      \A r \in Dec(s, p, a, cap, fin) : r \in Result(Char) /\ DecLocal(s, p, a, r)
EncLocal(s, i, j, r) == /\ i + r.used <= j /\ i + r.used \in EGood(s)
                        /\ Out(s, i + r.used) = Out(s, i) \o r.out
                        /\ ~r.ok => i + r.used = EEnd(s) /\ ~EOk(s)
EncOk(s) ==
  \A i \in EGood(s) : \A j \in 0..Len(Whole(s)) : \A cap \in Cap : \A fin \in BOOLEAN :
    (i <= j /\ (fin => j = Len(Whole(s)))) =>
      \A r \in Enc(s, i, j, cap, fin) : r \in Result(Byte) /\ EncLocal(s, i, j, r)

ASSUME Types  == \A s \in Jobs : TypesOk(s)
ASSUME Starts == \A s \in Jobs : StartsOk(s)
ASSUME Ends   == \A s \in Jobs : EndsOk(s)
ASSUME Decs   == \A s \in Jobs : DecOk(s)
ASSUME Encs   == \A s \in Jobs : EncOk(s)

-----------------------------------------------------------------------------
VARIABLES job, avail, used, text, taken, sink, phase
vars == <<job, avail, used, text, taken, sink, phase>>

Init == /\ job \in Jobs
        /\ avail = 0 /\ used = 0 /\ text = <<>> /\ taken = 0 /\ sink = <<>> /\ phase = "run"

Arrive == /\ phase = "run"
          /\ \E b \in 0..Size(job) : avail < b /\ avail' = b
          /\ UNCHANGED <<job, used, text, taken, sink, phase>>
Decoded == phase = "bad" \/ (avail = Size(job) /\ used = avail)
Decode == /\ phase = "run"
          /\ \E cap \in Cap, fin \in BOOLEAN :
               /\ fin => avail = Size(job)
               /\ \E r \in Dec(job, used, avail, cap, fin) :
                    /\ used' = used + r.used
                    /\ text' = text \o r.out
                    /\ phase' = IF r.ok THEN "run" ELSE "bad"
          /\ UNCHANGED <<job, avail, taken, sink>>
Encode == /\ phase \in {"run", "bad"}
          /\ \E cap \in Cap, fin \in BOOLEAN :
               /\ fin => Decoded
               /\ \E r \in Enc(job, taken, Len(text), cap, fin) :
                    /\ taken' = taken + r.used
                    /\ sink' = sink \o r.out
                    /\ phase' = IF r.ok THEN phase ELSE "unencodable"
          /\ UNCHANGED <<job, avail, used, text>>
Finish == /\ phase \in {"run", "bad"} /\ Decoded /\ taken = Len(text)
          /\ phase' = IF phase = "run" THEN "done" ELSE "undecodable"
          /\ UNCHANGED <<job, avail, used, text, taken, sink>>
Next == Arrive \/ Decode \/ Encode \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ job \in Jobs /\ avail \in 0..Size(job) /\ used \in 0..avail
          /\ text \in Seq(Char) /\ taken \in 0..Len(text) /\ sink \in Seq(Byte)
          /\ phase \in {"run", "bad", "done", "undecodable", "unencodable"}
Inv == /\ TypeOK
       /\ used \in DGood(job) /\ text = Text(job, used)
       /\ taken \in EGood(job) /\ sink = Out(job, taken)
       /\ phase \in {"bad", "undecodable"} => used = DEnd(job) /\ ~DOk(job)
       /\ phase = "unencodable" => taken = EEnd(job) /\ ~EOk(job)
       /\ phase = "done" => used = Size(job) /\ taken = Len(text)
       /\ phase = "undecodable" => taken = Len(text)

\* C24
Prefix == /\ \E t \in Seq(Char) : Whole(job) = text \o t
          /\ \E t \in Seq(Byte) : Out(job, EEnd(job)) = sink \o t
End == /\ phase = "done" => DOk(job) /\ EOk(job) /\ used = Size(job) /\ sink = Out(job, EEnd(job))
       /\ phase = "undecodable" => ~DOk(job) /\ EOk(job) /\ used = DEnd(job) /\ sink = Out(job, EEnd(job))
       /\ phase = "unencodable" => ~EOk(job) /\ taken = EEnd(job) /\ sink = Out(job, EEnd(job))
=============================================================================
