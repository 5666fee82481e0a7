---------------------------- MODULE GreedyProof ----------------------------
(* The proofs of the theorems of ../Greedy.tla, checked by tlapm.             *)
EXTENDS Greedy, NaturalsInduction, TLAPS

LEMMA Num == \A w \in Window : /\ N(w) \in Nat
                               /\ \A i \in 0..N(w) : Cost(w, i) \in Nat /\ Pos(w, i) \in Nat /\ Out(w, i) \in Seq(Byte)
                               /\ Cost(w, 0) = 0
  BY Types DEF TypeOk, Cost

LEMMA Mono == \A w \in Window : \A i, j \in 0..N(w) : i <= j => /\ Pos(w, i) <= Pos(w, j) /\ Cost(w, i) <= Cost(w, j)
                                                               /\ Begins(Out(w, i), Out(w, j))
<1> SUFFICES ASSUME NEW w \in Window, NEW i \in 0..N(w), NEW j \in 0..N(w), i <= j
             PROVE /\ Pos(w, i) <= Pos(w, j) /\ Cost(w, i) <= Cost(w, j)
                   /\ Begins(Out(w, i), Out(w, j))
  OBVIOUS
<1>1. CASE i < j
  BY <1>1, Grows, Num DEF GrowOk, Begins
<1>2. CASE i = j
  <2>1. Out(w, i) = Out(w, i) \o <<>> /\ <<>> \in Seq(Byte)
    BY Num
  <2> QED
    BY <1>2, <2>1, Num DEF Begins
<1> QED
  BY <1>1, <1>2, Num

\* Nothing that fits is left out.
LEMMA Best == \A w \in Window : \A c \in Nat : \A m, n \in 0..N(w) : (Stops(w, c, m) /\ Cost(w, n) <= c) => n <= m
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat, NEW m \in 0..N(w), NEW n \in 0..N(w),
                    Stops(w, c, m), Cost(w, n) <= c, n > m
             PROVE FALSE
  BY Num
<1>1. m + 1 \in 0..N(w) /\ m + 1 <= n /\ m < N(w)
  BY Num
<1>2. Cost(w, m + 1) <= Cost(w, n) /\ Cost(w, m + 1) \in Nat /\ Cost(w, n) \in Nat
  BY <1>1, Mono, Num
<1> QED
  BY <1>1, <1>2 DEF Stops

LEMMA Exists == \A w \in Window : \A c \in Nat : \E m \in 0..N(w) : Stops(w, c, m)
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat PROVE \E m \in 0..N(w) : Stops(w, c, m)
  OBVIOUS
<1> DEFINE P(k) == k <= N(w) => \E m \in 0..k : Cost(w, m) <= c /\ (m < k => Cost(w, m + 1) > c)
<1>1. P(0)
  BY Num
<1>2. ASSUME NEW k \in Nat, P(k) PROVE P(k + 1)
  <2> SUFFICES ASSUME k + 1 <= N(w) PROVE \E m \in 0..(k + 1) : Cost(w, m) <= c /\ (m < k + 1 => Cost(w, m + 1) > c)
    OBVIOUS
  <2>1. PICK m \in 0..k : Cost(w, m) <= c /\ (m < k => Cost(w, m + 1) > c)
    BY <1>2, Num
  <2>2. CASE m < k
    BY <2>1, <2>2
  <2>3. CASE m = k /\ Cost(w, k + 1) > c
    BY <2>1, <2>3
  <2>4. CASE m = k /\ ~(Cost(w, k + 1) > c)
    <3>1. Cost(w, k + 1) \in Nat
      BY Num
    <3> QED
      BY <2>4, <3>1
  <2> QED
    BY <2>1, <2>2, <2>3, <2>4
<1>3. \A k \in Nat : P(k)
  <2> HIDE DEF P
  <2> QED
    BY <1>1, <1>2, NatInduction, Isa
<1>4. P(N(w)) /\ N(w) \in Nat
  BY <1>3, Num
<1> QED
  BY <1>4 DEF Stops

THEOREM C12 == Exactly
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat
             PROVE \E m \in 0..N(w) : /\ Stops(w, c, m)
                                      /\ \A n \in 0..N(w) : Stops(w, c, n) => n = m
                                      /\ \A n \in 0..N(w) : Cost(w, n) <= c => n <= m
  BY DEF Exactly
<1>1. PICK m \in 0..N(w) : Stops(w, c, m)
  BY Exists
<1>2. \A n \in 0..N(w) : Cost(w, n) <= c => n <= m
  BY <1>1, Best
<1>3. \A n \in 0..N(w) : Stops(w, c, n) => n = m
  <2> SUFFICES ASSUME NEW n \in 0..N(w), Stops(w, c, n) PROVE n = m
    OBVIOUS
  <2>1. Cost(w, n) <= c /\ Cost(w, m) <= c
    BY <1>1 DEF Stops
  <2>2. n <= m /\ m <= n
    BY <2>1, <1>1, Best
  <2> QED
    BY <2>2, Num
<1> QED
  BY <1>1, <1>2, <1>3

THEOREM C23Room == MoreRoom
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat, NEW d \in Nat, NEW m \in 0..N(w), NEW n \in 0..N(w),
                    c <= d, Stops(w, c, m), Stops(w, d, n)
             PROVE Pos(w, m) <= Pos(w, n) /\ Begins(Out(w, m), Out(w, n))
  BY DEF MoreRoom
<1>1. Cost(w, m) <= d
  BY Num DEF Stops
<1>2. m <= n
  BY <1>1, Best
<1> QED
  BY <1>2, Mono

THEOREM C23Input == MoreInput
<1> SUFFICES ASSUME NEW w \in Window, NEW v \in Window, NEW c \in Nat, NEW m \in 0..N(w), NEW n \in 0..N(v),
                    Ext(w, v), Stops(w, c, m), Stops(v, c, n)
             PROVE Pos(w, m) <= Pos(v, n) /\ Begins(Out(w, m), Out(v, n))
  BY DEF MoreInput
<1>1. ExtOk(w, v)
  BY Exts
<1>2. m \in 0..N(v) /\ Pos(v, m) = Pos(w, m) /\ Out(v, m) = Out(w, m)
  BY <1>1, Num DEF ExtOk
<1>3. Cost(v, m) <= c
  BY <1>2 DEF Stops, Cost
<1>4. m <= n
  BY <1>2, <1>3, Best
<1> QED
  BY <1>2, <1>4, Mono

THEOREM C26 == Spare
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat, NEW m \in 0..N(w), Stops(w, c, m), c - Cost(w, m) >= 4, m # N(w)
             PROVE FALSE
  BY DEF Spare
<1>1. m \in 0..(N(w) - 1) /\ m < N(w) /\ m + 1 \in 0..N(w)
  BY Num
<1>2. Cost(w, m + 1) <= Cost(w, m) + 4 /\ Cost(w, m) \in Nat /\ Cost(w, m + 1) \in Nat
  BY <1>1, Smalls, Num DEF SmallOk
<1> QED
  BY <1>1, <1>2 DEF Stops

THEOREM C16 == Progress
<1> SUFFICES ASSUME NEW w \in Window, NEW c \in Nat, NEW m \in 0..N(w), Stops(w, c, m), c >= 4, N(w) >= 1
             PROVE m >= 1 /\ Pos(w, m) > 0
  BY DEF Progress
<1>1. m >= 1
  <2> SUFFICES ASSUME m = 0 PROVE FALSE
    BY Num
  <2>1. Cost(w, 0) = 0 /\ c - Cost(w, m) >= 4
    BY Num
  <2>2. m = N(w)
    BY <2>1, C26 DEF Spare
  <2> QED
    BY <2>2, Num
<1>2. 0 \in 0..N(w) /\ Pos(w, 0) < Pos(w, m) /\ Pos(w, 0) = 0
  BY <1>1, Grows, Types, Num DEF GrowOk, TypeOk
<1> QED
  BY <1>1, <1>2

THEOREM C27 == Shifted
<1> SUFFICES ASSUME NEW p \in Window, NEW s \in Window, NEW v \in Window, NEW c \in Nat,
                    NEW m \in 0..N(s), NEW n \in 0..N(v),
                    Join(p, s, v), Stops(s, c, m), Stops(v, c + Cost(p, N(p)), n)
             PROVE /\ n = N(p) + m
                   /\ Pos(v, n) = Pos(p, N(p)) + Pos(s, m) /\ Out(v, n) = Out(p, N(p)) \o Out(s, m)
  BY DEF Shifted
<1>1. JoinOk(p, s, v)
  BY Joins
<1>2. /\ N(p) \in Nat /\ N(s) \in Nat /\ N(v) = N(p) + N(s)
      /\ \A i \in 0..N(s) : N(p) + i \in 0..N(v)
      /\ Cost(p, N(p)) \in Nat /\ c + Cost(p, N(p)) \in Nat
  BY <1>1, Num DEF JoinOk
<1>3. \A i \in 0..N(s) : Cost(v, N(p) + i) = Cost(p, N(p)) + Cost(s, i) /\ Cost(s, i) \in Nat
  <2> TAKE i \in 0..N(s)
  <2>1. Out(v, N(p) + i) = Out(p, N(p)) \o Out(s, i)
    BY <1>1 DEF JoinOk
  <2>2. Out(p, N(p)) \in Seq(Byte) /\ Out(s, i) \in Seq(Byte) /\ Cost(s, i) \in Nat
    BY <1>2, Num
  <2> QED
    BY <2>1, <2>2 DEF Cost
<1>4. Stops(v, c + Cost(p, N(p)), N(p) + m)
  <2>1. Cost(v, N(p) + m) <= c + Cost(p, N(p))
    BY <1>2, <1>3 DEF Stops
  <2>2. ASSUME N(p) + m < N(v) PROVE Cost(v, N(p) + m + 1) > c + Cost(p, N(p))
    <3>1. m < N(s) /\ m + 1 \in 0..N(s)
      BY <1>2, <2>2
    <3>2. Cost(s, m + 1) > c /\ Cost(v, N(p) + (m + 1)) = Cost(p, N(p)) + Cost(s, m + 1) /\ Cost(s, m + 1) \in Nat
      BY <3>1, <1>3 DEF Stops
    <3>3. N(p) + (m + 1) = N(p) + m + 1
      BY <1>2
    <3> QED
      BY <3>2, <3>3, <1>2
  <2> QED
    BY <2>1, <2>2, <1>2 DEF Stops
<1>5. n = N(p) + m
  BY <1>2, <1>4, C12 DEF Exactly
<1> QED
  BY <1>1, <1>5 DEF JoinOk
=============================================================================
