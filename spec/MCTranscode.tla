---------------------------- MODULE MCTranscode -----------------------------
(***************************************************************************)
(* Binds the proof of Transcode to the specification: Call is as Transcode   *)
(* assumes, and Pipe is an instance of its machine, for every stream MCPipe  *)
(* knows.                                                                    *)
(***************************************************************************)
EXTENDS MCPipe

Job == [from |-> from, to |-> to, src |-> src]
AllJobs == UNION {{[from |-> e1, to |-> e2, src |-> s] : s \in Sources(e1)} : e1 \in Froms, e2 \in Tos}
TSize(s) == Len(s.src)
DecOf(s, p, a, cap, fin) == {[ok |-> r.ok, used |-> r.used, out |-> Scalars(r.out, <<>>)] :
                               r \in CallResults(s.from, "dec", SubSeq(s.src, p + 1, a), cap, fin)}
EncOf(s, t, i, j, cap, fin) == {[ok |-> r.ok, used |-> r.used, out |-> r.out] :
                               r \in CallResults(s.to, "enc", SubSeq(t, i + 1, j), cap, fin)}
\* Positions between the leading characters, and where they end.
TGood(s) == {m[1] : m \in Marks(s.from, "dec", s.src, TRUE)}
TEnd(s)  == StopPos(s.from, "dec", s.src, TRUE)
TOk(s)   == StopUnits(s.from, "dec", s.src, TRUE) = {}
TText(s, p) == Scalars(Ref(s.from, "dec", SubSeq(s.src, 1, p)).out, <<>>)
TWhole(s) == TText(s, TEnd(s))
TEGood(s) == {m[1] : m \in Marks(s.to, "enc", TWhole(s), TRUE)}
TEEnd(s)  == StopPos(s.to, "enc", TWhole(s), TRUE)
TEOk(s)   == StopUnits(s.to, "enc", TWhole(s), TRUE) = {}
TOut(s, i) == Ref(s.to, "enc", SubSeq(TWhole(s), 1, i)).out
TEnc(s, i, j, cap, fin) == EncOf(s, TWhole(s), i, j, cap, fin)

Abs == INSTANCE Transcode WITH Char <- 0..1114111, Byte <- 0..255, Cap <- Caps, Jobs <- AllJobs, Size <- TSize,
         Dec <- DecOf, Text <- TText, DGood <- TGood, DEnd <- TEnd, DOk <- TOk,
         Enc <- TEnc, Out <- TOut, EGood <- TEGood, EEnd <- TEEnd, EOk <- TEOk, job <- Job

\* The assumptions, for the job at hand (those about sets TLC cannot
\* enumerate in words that it can evaluate).
Among(o, hi) == \A k \in 1..Len(o) : o[k] \in 0..hi
TypesHere ==
  /\ TGood(Job) \subseteq 0..Len(src) /\ TEnd(Job) \in TGood(Job)
  /\ \A p \in TGood(Job) : p <= TEnd(Job) /\ Among(TText(Job, p), 1114111) /\ IsPrefix(TText(Job, p), TWhole(Job))
  /\ TEGood(Job) \subseteq 0..Len(TWhole(Job)) /\ TEEnd(Job) \in TEGood(Job)
  /\ \A i \in TEGood(Job) : i <= TEEnd(Job) /\ Among(TOut(Job, i), 255) /\ IsPrefix(TOut(Job, i), TOut(Job, TEEnd(Job)))
DecHere == \A p \in TGood(Job) : \A a \in p..Len(src) : \A cap \in Caps : \A fin \in BOOLEAN :
             (fin => a = Len(src)) => \A r \in DecOf(Job, p, a, cap, fin) : r.used >= 0 /\ Abs!DecLocal(Job, p, a, r)
EncHere == \A i \in TEGood(Job) : \A j \in i..Len(TWhole(Job)) : \A cap \in Caps : \A fin \in BOOLEAN :
             (fin => j = Len(TWhole(Job))) => \A r \in TEnc(Job, i, j, cap, fin) : r.used >= 0 /\ Abs!EncLocal(Job, i, j, r)
Assumed == (avail = 0 /\ phase = "run") => TypesHere /\ Abs!StartsOk(Job) /\ Abs!EndsOk(Job) /\ DecHere /\ EncHere
\* Every step of Pipe is one of the machine that Transcode is about.
IsInstance == [][Abs!Next]_pvars
InvHere == /\ used \in TGood(Job) /\ text = TText(Job, used) /\ taken \in TEGood(Job) /\ sink = TOut(Job, taken)
Still == UNCHANGED pvars
=============================================================================
