---------------------------- MODULE MCPipeSched -----------------------------
(* Random behaviours of the transcoding client, printed when they end, to be   *)
(* replayed into the real code (see MCSched).                                  *)
EXTENDS MCPipe, Json

CONSTANT MaxPieces

VARIABLES hist,  \* the calls so far: <<stage, avail, cap, fin, ok, used, output length>>
          size   \* pieces still to be added to the source

SInit == /\ from \in Froms /\ to \in Tos /\ src = <<>>
         /\ avail = 0 /\ used = 0 /\ text = <<>> /\ taken = 0 /\ sink = <<>> /\ phase = "grow"
         /\ hist = <<>> /\ size \in 1..MaxPieces

\* Pieces that are no errors by themselves (so that streams get long).
Good == [e \in Froms |-> {p \in Few(e) \cup Pieces(e, "dec") : \A u \in DecUnits(e, p, FALSE) : u.k # "err"}]

Grow == /\ phase = "grow"
        /\ IF size = 0 THEN phase' = "run" /\ UNCHANGED <<src, size>>
           ELSE /\ \E p \in (IF size > 1 THEN Good[from] ELSE Few(from) \cup Pieces(from, "dec")) : src' = src \o p
                /\ size' = size - 1 /\ UNCHANGED phase
        /\ UNCHANGED <<from, to, avail, used, text, taken, sink, hist>>

LastOf(k) == LET I == {i \in 1..Len(hist) : hist[i][1] = k}
             IN  IF I = {} THEN <<k, 0, 0, FALSE, TRUE, 1, 0>> ELSE hist[Max(I)]
\* A call that can do nothing new is not made.
NewDec(cap, fin) == LET l == LastOf(1) IN
  /\ avail > used \/ (hist = <<>> /\ fin)
  /\ l[6] > 0 \/ l[2] < avail \/ (fin /\ ~l[4]) \/ (cap >= 4 /\ l[3] < 4)
NewEnc(cap, fin) == LET l == LastOf(2) IN
  /\ Len(text) > taken
  /\ l[6] > 0 \/ l[2] < Len(text) \/ (fin /\ ~l[4]) \/ (cap >= 4 /\ l[3] < 4)
SDecode == \E cap \in Caps, fin \in BOOLEAN :
             /\ NewDec(cap, fin) = TRUE /\ Decode(cap, fin)
             /\ hist' = Append(hist, <<1, avail, cap, fin, phase' = "run", used' - used, Len(text') - Len(text)>>)
SEncode == \E cap \in Caps, fin \in BOOLEAN :
             /\ NewEnc(cap, fin) = TRUE /\ Encode(cap, fin)
             /\ hist' = Append(hist, <<2, Len(text), cap, fin, phase' # "unencodable", taken' - taken, Len(sink') - Len(sink)>>)
SNext == Grow \/ ((DoArrive \/ Finish) /\ UNCHANGED <<hist, size>>) \/ ((SDecode \/ SEncode) /\ UNCHANGED size)

Over    == phase \in {"done", "undecodable", "unencodable"}
SPrefix == phase # "grow" => C24Prefix
SEnd    == Over => C24End
SExport == Over => PrintT("@@" \o ToJson([e |-> from, d |-> "dec", to |-> to, w |-> src, s |-> hist]))
=============================================================================
