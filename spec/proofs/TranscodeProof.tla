--------------------------- MODULE TranscodeProof ---------------------------
(* The proof of theorem Transcoding (see ../Transcode.tla), checked by tlapm. *)
EXTENDS Transcode, SequenceTheorems, TLAPS

LEMMA InitInv == Init => Inv
  BY Types, Starts DEF Init, Inv, TypeOK, TypesOk, StartsOk

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> /\ job \in Jobs /\ Size(job) \in Nat /\ avail \in Nat /\ avail <= Size(job)
    /\ used \in Nat /\ used <= avail /\ used \in DGood(job) /\ used <= DEnd(job) /\ DEnd(job) \in DGood(job)
    /\ DEnd(job) \in Nat /\ DEnd(job) <= Size(job)
    /\ text \in Seq(Char) /\ text = Text(job, used) /\ Len(text) \in Nat
    /\ Whole(job) \in Seq(Char) /\ Len(Whole(job)) \in Nat /\ Len(text) <= Len(Whole(job))
    /\ taken \in Nat /\ taken <= Len(text) /\ taken \in EGood(job)
    /\ sink \in Seq(Byte) /\ sink = Out(job, taken)
    /\ EEnd(job) \in Nat /\ EEnd(job) <= Len(Whole(job))
  BY Types DEF Inv, TypeOK, TypesOk, Whole
<1>1. CASE Arrive
  BY <1>1 DEF Arrive, Inv, TypeOK
<1>2. CASE Decode
  <2>1. PICK cap \in Cap, fin \in BOOLEAN :
           /\ fin => avail = Size(job)
           /\ \E r \in Dec(job, used, avail, cap, fin) :
                    /\ used' = used + r.used
                    /\ text' = text \o r.out
                    /\ phase' = IF r.ok THEN "run" ELSE "bad"
    BY <1>2 DEF Decode
  <2>2. PICK r \in Dec(job, used, avail, cap, fin) :
                    /\ used' = used + r.used
                    /\ text' = text \o r.out
                    /\ phase' = IF r.ok THEN "run" ELSE "bad"
    BY <2>1
  <2>3. r \in Result(Char) /\ DecLocal(job, used, avail, r)
    BY <2>1, <2>2, Decs DEF DecOk
  <2>4. r.used \in Nat /\ r.out \in Seq(Char) /\ r.ok \in BOOLEAN
    BY <2>3 DEF Result
  <2>5. /\ job' = job /\ avail' = avail /\ taken' = taken /\ sink' = sink /\ phase = "run"
    BY <1>2 DEF Decode
  <2>6. /\ used' \in Nat /\ used' <= avail /\ used' \in DGood(job) /\ text' = Text(job, used')
        /\ text' \in Seq(Char)
        /\ ~r.ok => used' = DEnd(job) /\ ~DOk(job)
    BY <2>2, <2>3, <2>4 DEF DecLocal
  <2>7. Len(text') \in Nat /\ Len(text) <= Len(text')
    BY <2>2, <2>4
  <2> QED
    BY <2>2, <2>4, <2>5, <2>6, <2>7 DEF Inv, TypeOK
<1>3. CASE Encode
  <2>1. PICK cap \in Cap, fin \in BOOLEAN :
           /\ fin => Decoded
           /\ \E r \in Enc(job, taken, Len(text), cap, fin) :
                    /\ taken' = taken + r.used
                    /\ sink' = sink \o r.out
                    /\ phase' = IF r.ok THEN phase ELSE "unencodable"
    BY <1>3 DEF Encode
  <2>2. PICK r \in Enc(job, taken, Len(text), cap, fin) :
                    /\ taken' = taken + r.used
                    /\ sink' = sink \o r.out
                    /\ phase' = IF r.ok THEN phase ELSE "unencodable"
    BY <2>1
  <2>3. Decoded => used = DEnd(job)
    BY <1>3 DEF Encode, Decoded, Inv
  <2>4. fin => Len(text) = Len(Whole(job))
    BY <2>1, <2>3 DEF Whole
  <2>5. r \in Result(Byte) /\ EncLocal(job, taken, Len(text), r)
    BY <2>1, <2>2, <2>4, Encs DEF EncOk
  <2>6. r.used \in Nat /\ r.out \in Seq(Byte) /\ r.ok \in BOOLEAN
    BY <2>5 DEF Result
  <2>7. /\ job' = job /\ avail' = avail /\ used' = used /\ text' = text /\ phase \in {"run", "bad"}
    BY <1>3 DEF Encode
  <2>8. /\ taken' \in Nat /\ taken' <= Len(text) /\ taken' \in EGood(job) /\ sink' = Out(job, taken')
        /\ sink' \in Seq(Byte)
        /\ ~r.ok => taken' = EEnd(job) /\ ~EOk(job)
    BY <2>2, <2>5, <2>6 DEF EncLocal
  <2> QED
    BY <2>2, <2>6, <2>7, <2>8 DEF Inv, TypeOK
<1>4. CASE Finish
  BY <1>4 DEF Finish, Decoded, Inv, TypeOK
<1>5. CASE UNCHANGED vars
  BY <1>5 DEF vars, Inv, TypeOK
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

THEOREM Transcoding == Spec => [](Prefix /\ End)
<1>1. Inv => Prefix /\ End
  <2> SUFFICES ASSUME Inv PROVE Prefix /\ End
    OBVIOUS
  <2>0. job \in Jobs
    BY DEF Inv, TypeOK
  <2>1. Prefix
    BY <2>0, Types DEF Inv, TypesOk, Prefix
  <2>2. /\ used \in DGood(job) /\ used <= DEnd(job) /\ DEnd(job) <= Size(job) /\ used \in Int /\ DEnd(job) \in Int /\ Size(job) \in Int
        /\ taken \in EGood(job) /\ taken <= EEnd(job) /\ EEnd(job) <= Len(Whole(job)) /\ taken \in Int
        /\ EEnd(job) \in Int /\ Len(Whole(job)) \in Int
    BY <2>0, Types DEF Inv, TypesOk, TypeOK
  <2>3. CASE phase = "done"
    <3>1. used = DEnd(job) /\ DEnd(job) = Size(job) /\ text = Whole(job)
      BY <2>2, <2>3 DEF Inv, Whole
    <3>2. taken = EEnd(job) /\ EEnd(job) = Len(Whole(job))
      BY <2>2, <2>3, <3>1 DEF Inv
    <3> QED
      BY <2>0, <2>1, <2>3, <3>1, <3>2, Ends DEF End, EndsOk, Inv
  <2>4. CASE phase = "undecodable"
    <3>1. used = DEnd(job) /\ text = Whole(job) /\ ~DOk(job)
      BY <2>4 DEF Inv, Whole
    <3>2. taken = EEnd(job) /\ EEnd(job) = Len(Whole(job))
      BY <2>2, <2>4, <3>1 DEF Inv
    <3> QED
      BY <2>0, <2>1, <2>4, <3>1, <3>2, Ends DEF End, EndsOk, Inv
  <2>5. CASE phase = "unencodable"
    BY <2>1, <2>5 DEF End, Inv
  <2> QED
    BY <2>1, <2>3, <2>4, <2>5 DEF End
<1> QED
  BY <1>1, InitInv, StepInv, PTL DEF Spec
=============================================================================
