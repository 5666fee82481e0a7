------------------------------- MODULE MCPipe -------------------------------
(* Transcoding every source of up to Depth + Extra pieces between every pair   *)
(* of encodings, for every schedule of arrivals, calls and buffer sizes.       *)
EXTENDS Pipe, Alphabets

CONSTANTS Froms, Tos, Extra, Caps

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* Every single piece, and combinations of those that matter to a pair.
Few(e) == CASE e = "utf8" -> {<<65>>, <<195, 138>>, <<195>>, <<204, 132>>, <<226, 137>>, <<228, 187, 138>>, <<255>>}
            [] e = "big5_whatwg" -> {<<65>>, <<136, 98>>, <<136>>, <<164, 181>>, <<136, 102>>, <<255>>}
            [] e = "shiftjis_whatwg" -> {<<65>>, <<141>>, <<141, 161>>, <<161>>, <<253>>}
            [] OTHER -> Pieces(e, "dec")
Sources(e) == {Concat(ss) : ss \in UNION {[1..n -> Few(e)] : n \in 1..(2 + Extra)}}
Init == \E e1 \in Froms, e2 \in Tos : \E s \in Sources(e1) : Open(e1, e2, s)

DoArrive == \E k \in 1..Len(src) : Arrive(k)
DoDecode == \E cap \in Caps, fin \in BOOLEAN : Decode(cap, fin)
DoEncode == \E cap \in Caps, fin \in BOOLEAN : Encode(cap, fin)
Next == DoArrive \/ DoDecode \/ DoEncode \/ Finish
Spec == Init /\ [][Next]_pvars

GoodDecode == \E cap \in Caps : cap >= 4 /\ Decode(cap, avail = Len(src))
GoodEncode == \E cap \in Caps : cap >= 4 /\ Encode(cap, Decoded)
FairSpec == Spec /\ SF_pvars(DoArrive) /\ SF_pvars(GoodDecode) /\ SF_pvars(GoodEncode) /\ WF_pvars(Finish)

\* C24
C24Prefix == IsPrefix(text, WholeText) /\ IsPrefix(sink, WholeEnc.out)
C24End == CASE phase = "done" -> WholeDec.ok /\ WholeEnc.ok /\ sink = WholeEnc.out /\ used = Len(src)
            [] phase = "undecodable" -> ~WholeDec.ok /\ WholeEnc.ok /\ sink = WholeEnc.out /\ used = WholeDec.used
            [] phase = "unencodable" -> ~WholeEnc.ok /\ sink = WholeEnc.out /\ taken = WholeEnc.used
            [] OTHER -> TRUE
C24Terminates == <>(phase \in {"done", "undecodable", "unencodable"})
=============================================================================
