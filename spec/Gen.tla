-------------------------------- MODULE Gen ---------------------------------
(* Writes the meaning of every encoding, as Codec defines it, to one JSON     *)
(* file: the table the harness interprets as its oracle.  Everything in it    *)
(* comes out of DecUnits / EncUnits or the segment definitions.               *)
EXTENDS Codec, IOUtils

Only(S) == CHOOSE x \in S : TRUE
TabNames == Encodings \ UtfNames

\* One unit as an integer list <<kind, n, out...>>: 0 emit, 1 err, 2 wait.
Code(u) == <<IF u.k = "emit" THEN 0 ELSE IF u.k = "err" THEN 1 ELSE 2, u.n>> \o u.out

\* Outcome of every single byte, at the end and not at the end.
One(enc, fin) == [b \in 1..256 |-> Code(Only(DecUnits(enc, <<b - 1>>, fin)))]
\* Outcome of every two bytes whose first needs a second.
NeedsTwo(enc) == {b \in 0..255 : Wait \in DecUnits(enc, <<b>>, FALSE)}
Two(enc) == LET N == NeedsTwo(enc) IN
            [b \in 1..256 |->
               IF b - 1 \in N
               THEN [t \in 1..256 |-> Code(Only(DecUnits(enc, <<b - 1, t - 1>>, TRUE)))]
               ELSE <<>>]

\* Scalars worth asking an encoder about: all that occur in any decoding, and
\* all special cases; every other scalar is unencodable (MCUnits checks this).
TabScalars(enc) ==
  IF enc = "big5_whatwg" THEN {Big5Tab[i] : i \in 1..Len(Big5Tab)} \cup {202, 234}
  ELSE IF enc = "shiftjis_whatwg"
  THEN {SjisTab[i] : i \in 1..Len(SjisTab)} \cup {128, 165, 8254, 8722} \cup (65377..65439)
       \cup (57344..59223)
  ELSE {SBTab[enc][i] : i \in 1..128}
Candidates(enc) == ((0..127) \cup TabScalars(enc)) \ {-1}
EncList(enc) ==
  LET C == SetToSeq({c \in Candidates(enc) : Only(EncUnits(enc, <<c>>, TRUE)).k = "emit"})
  IN  [i \in 1..Len(C) |-> <<C[i]>> \o Only(EncUnits(enc, <<C[i]>>, TRUE)).out]

TabOf(enc) == [one_end |-> One(enc, TRUE), one_more |-> One(enc, FALSE),
               two |-> Two(enc), enc |-> EncList(enc),
               dec_max |-> MaxUnit(enc, "dec"), enc_max |-> MaxUnit(enc, "enc")]
UtfOf(enc) == [segs |-> Segs(enc), dec_max |-> MaxUnit(enc, "dec"), enc_max |-> MaxUnit(enc, "enc")]

Marks1 == {202, 234, 772, 780, 65, 20170, 9552, 769, 8364}
Pairs(z) == {<<a, b>> \in Marks1 \X Marks1 : Only(EncUnits("big5_whatwg", <<a, b>>, TRUE)).n = 2}
\* (The unused parameter keeps TLC from evaluating this a second time.)
Oracle(z) ==
  [tab  |-> [e \in TabNames |-> TabOf(e)],
   utf  |-> [e \in UtfNames |-> UtfOf(e)],
   announced |-> [b \in 1..256 |-> Announced(b - 1)],
   run  |-> [b \in 1..256 |-> RunByte(b - 1)],
   pair_start |-> SetToSeq({c \in Marks1 : Wait \in EncUnits("big5_whatwg", <<c>>, FALSE)}),
   pairs |-> SetToSeq({p \o Only(EncUnits("big5_whatwg", p, TRUE)).out : p \in Pairs(z)})]

OutFile == IOEnv.ORACLE_OUT
ASSUME JsonSerialize(OutFile, Oracle(0))
VARIABLE nothing
Init == nothing = 0
Next == UNCHANGED nothing
=============================================================================
