---------------------------- MODULE ChunksProof ----------------------------
(* The proof of theorem Chunking (see ../Chunks.tla), checked by tlapm.       *)
EXTENDS Chunks, SequenceTheorems, TLAPS

LEMMA InitInv == Init => Inv
  BY SizeType, RefType, RefEnds DEF EndsOk, SizeOk, RefOk, Init, Inv, TypeOK, Busy, Failed, Produced, Position, NoCall, CallType

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE SizeType, RefType DEF SizeOk, RefOk
<1> /\ sess \in Texts /\ Size(sess) \in Nat /\ avail \in Nat /\ avail <= Size(sess)
    /\ used \in Nat /\ used <= avail /\ sink \in Seq(Byte)
    /\ call.pos \in Nat /\ call.out \in Seq(Byte) /\ call.fin \in BOOLEAN /\ call.n \in Nat /\ call.cap \in Nat
  BY DEF SizeOk, RefOk, Inv, TypeOK, CallType
<1>1. CASE Arrive
  BY <1>1 DEF SizeOk, RefOk, Arrive, Inv, TypeOK, Busy, Failed, Produced, Position, CallType
<1>2. CASE Begin
  <2>1. call' = [cap |-> call'.cap, fin |-> call'.fin, pos |-> 0, out |-> <<>>, n |-> 0]
        /\ call'.cap \in Nat /\ call'.fin \in BOOLEAN /\ (call'.fin => avail = Size(sess))
    BY <1>2 DEF Begin
  <2>2. call' \in CallType /\ call'.pos = 0 /\ call'.out = <<>>
    BY <2>1 DEF CallType
  <2>3. sink \o call'.out = sink
    BY <2>2 DEF SizeOk, RefOk, Inv, TypeOK
  <2> QED
    BY <1>2, <2>1, <2>2, <2>3 DEF SizeOk, RefOk, Begin, Inv, TypeOK, Busy, Failed, Produced, Position
<1>3. CASE Skip
  <2>1. used' \in 0..avail /\ call.n \in Nat
    BY <1>3 DEF SizeOk, RefOk, Skip, Inv, TypeOK, Failed, CallType
  <2>2. NoCall \in CallType
    BY DEF SizeOk, RefOk, NoCall, CallType
  <2>3. bad' = {i \in Bad(sess) : i < used'}
    BY <1>3, <2>1 DEF SizeOk, RefOk, Skip, Inv, TypeOK, Failed
  <2> QED
    BY <1>3, <2>1, <2>2, <2>3 DEF SizeOk, RefOk, Skip, Inv, TypeOK, Busy, Failed, Produced, Position
<1>4. CASE Finish
  <2>1. NoCall \in CallType
    BY DEF SizeOk, RefOk, NoCall, CallType
  <2> QED
    BY <1>4, <2>1 DEF SizeOk, RefOk, Finish, Inv, TypeOK, Busy, Failed, Produced, Position
<1>5. CASE Emit
  <2>1. PICK u \in Here : /\ u.k = "emit"
                          /\ call' = [cap |-> call.cap, fin |-> call.fin, pos |-> call.pos + u.n,
                                       out |-> call.out \o u.out, n |-> call.n]
    BY <1>5 DEF SizeOk, RefOk, Emit
  <2>2. /\ (used + call.pos) \in Good(sess) /\ (used + call.pos) \in 0..Size(sess) /\ used + call.pos < avail /\ phase = "busy"
        /\ (call.fin => avail = Size(sess))
        /\ \A i \in used..(used + call.pos - 1) : i \notin Bad(sess)
    BY <1>5 DEF SizeOk, RefOk, Emit, More, Inv, TypeOK, Busy, Position, CallType
  <2>3. u \in Outcome /\ EmitLocal(sess, (used + call.pos), avail, u)
    BY <2>1, <2>2, UnitType, Local DEF UnitOk, LocalOk, Here
  <2>4. u.n \in Nat /\ u.out \in Seq(Byte)
    BY <2>3 DEF SizeOk, RefOk, Outcome
  <2>5. /\ call'.pos = call.pos + u.n /\ call'.out = call.out \o u.out /\ call'.fin = call.fin
        /\ call' \in CallType
    BY <2>1, <2>2, <2>4 DEF SizeOk, RefOk, CallType
  <2>6. sink \o (call.out \o u.out) = (sink \o call.out) \o u.out
    BY <2>2, <2>4, ConcatAssociative
  <2>7. Produced' = Produced \o u.out /\ Position' = (used + call.pos) + u.n /\ Position = (used + call.pos)
    BY <1>5, <2>2, <2>4, <2>5, <2>6 DEF SizeOk, RefOk, Emit, Produced, Position
  <2>8. \A i \in used..(used + call'.pos - 1) : i \notin Bad(sess)
    <3> SUFFICES ASSUME NEW i \in used..(used + call'.pos - 1) PROVE i \notin Bad(sess)
      OBVIOUS
    <3>1. CASE i < (used + call.pos)
      BY <3>1, <2>2, <2>4, <2>5
    <3>2. CASE i >= (used + call.pos)
      <4>1. i \in (used + call.pos)..((used + call.pos) + u.n - 1)
        BY <3>2, <2>2, <2>4, <2>5
      <4> QED
        BY <4>1, <2>3 DEF SizeOk, RefOk, EmitLocal
    <3> QED
      BY <3>1, <3>2, <2>2, <2>4, <2>5
  <2> QED
    BY <1>5, <2>2, <2>3, <2>4, <2>5, <2>7, <2>8 DEF SizeOk, RefOk, Emit, EmitLocal, Inv, TypeOK, Busy, Failed
<1>6. CASE Return
  <2>1. NoCall \in CallType
    BY DEF SizeOk, RefOk, NoCall, CallType
  <2>2. /\ call.pos \in Nat /\ call.out \in Seq(Byte) /\ used \in Nat /\ used + call.pos <= avail
        /\ avail \in 0..Size(sess) /\ sink \in Seq(Byte)
    BY <1>6 DEF SizeOk, RefOk, Return, Inv, TypeOK, Busy, CallType
  <2>3. used' \in 0..avail /\ sink' \in Seq(Byte)
    BY <1>6, <2>2 DEF SizeOk, RefOk, Return
  <2>4. bad = {i \in Bad(sess) : i < used + call.pos}
    BY <1>6, <2>2 DEF SizeOk, RefOk, Return, Inv, Busy
  <2> QED
    BY <1>6, <2>1, <2>2, <2>3, <2>4 DEF SizeOk, RefOk, Return, Inv, TypeOK, Busy, Failed, Produced, Position
<1>7. CASE Fail
  <2>1. PICK u \in Here : u.k = "err" /\ call' = [cap |-> call.cap, fin |-> call.fin, pos |-> call.pos, out |-> call.out, n |-> u.n]
    BY <1>7 DEF SizeOk, RefOk, Fail
  <2>2. /\ (used + call.pos) \in Good(sess) /\ (used + call.pos) \in 0..Size(sess) /\ used + call.pos < avail /\ phase = "busy"
        /\ (call.fin => avail = Size(sess))
        /\ \A i \in used..(used + call.pos - 1) : i \notin Bad(sess)
    BY <1>7 DEF SizeOk, RefOk, Fail, More, Inv, TypeOK, Busy, Position, CallType
  <2>3. u \in Outcome /\ ErrLocal(sess, (used + call.pos), avail, u)
    BY <2>1, <2>2, UnitType, Local DEF UnitOk, LocalOk, Here
  <2>4. u.n \in Nat
    BY <2>3 DEF SizeOk, RefOk, Outcome
  <2>5. call'.n = u.n /\ call' \in CallType
    BY <2>1, <2>4 DEF SizeOk, RefOk, CallType
  <2>6. used' = (used + call.pos) /\ used' \in 0..avail /\ sink' \in Seq(Byte)
    BY <1>7, <2>2 DEF SizeOk, RefOk, Fail
  <2>7. bad = {i \in Bad(sess) : i < (used + call.pos)}
    BY <2>2 DEF SizeOk, RefOk, Inv
  <2> QED
    BY <1>7, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7
       DEF SizeOk, RefOk, Fail, ErrLocal, Inv, TypeOK, Busy, Failed, Produced, Position
<1>8. CASE UNCHANGED vars
  BY <1>8 DEF SizeOk, RefOk, vars, Inv, TypeOK, Busy, Failed, Produced, Position
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF SizeOk, RefOk, Next

THEOREM Chunking == Spec => [](Prefix /\ Counts /\ Skipped /\ Done)
<1>1. Inv => Prefix /\ Counts /\ Skipped /\ Done
  <2> SUFFICES ASSUME Inv PROVE Prefix /\ Counts /\ Skipped /\ Done
    OBVIOUS
  <2>1. Prefix
    BY RefGrows DEF GrowsOk, SizeOk, RefOk, Inv, TypeOK, Prefix
  <2>2. Counts /\ Skipped
    BY DEF SizeOk, RefOk, Inv, Counts, Skipped
  <2>3. Done
    <3> SUFFICES ASSUME phase = "done" PROVE sink = RefOut(sess, Size(sess)) /\ bad = Bad(sess)
      BY DEF SizeOk, RefOk, Done
    <3>1. used = Size(sess) /\ sess \in Texts
      BY DEF SizeOk, RefOk, Inv, TypeOK
    <3>2. \A i \in Bad(sess) : i < Size(sess)
      BY <3>1, SizeType, RefType DEF SizeOk, RefOk
    <3> QED
      BY <3>1, <3>2 DEF SizeOk, RefOk, Inv, Produced, Position
  <2> QED
    BY <2>1, <2>2, <2>3
<1> QED
  BY <1>1, InitInv, StepInv, PTL DEF SizeOk, RefOk, Spec
=============================================================================
