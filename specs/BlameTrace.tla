----------------------------- MODULE BlameTrace -----------------------------
EXTENDS TraceBase
VARIABLES sent, bad, pre
B == INSTANCE Blame
TraceInit == TInit /\ B!BInit
Same == UNCHANGED <<sent, bad, pre>>
TraceNext ==
  /\ \/ IsEv("send") /\ B!Send(Ev.w, Ev.r, Ev.p)
     \/ IsEv("bad") /\ B!Bad(Ev.w, Ev.r, Range(Ev.ps))
     \/ IsEv("pre") /\ B!Pre(Ev.ps)
     \/ IsEv("querypre") /\ Range(Ev.res) = Range(pre) /\ Same
     \/ IsEv("query") /\ Range(Ev.res) = B!Culprits(Ev.w, Ev.r, Range(Ev.ps)) /\ Len(Ev.res) = Cardinality(Range(Ev.res)) /\ Same
  /\ Consume
=============================================================================
