----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  The check writes traces recorded from the real code to TRACE_FILE  *)
(* (an array of [ev |-> sequence of events, cfg |-> parameters]).  TLC explores, for every trace, the behaviours *)
(* of the specification that explain it; Track remembers how many events could be explained, Post writes that    *)
(* number for every trace to OUT_FILE.  A trace is accepted when all its events were explained.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
ASSUME \A t \in 1..Len(Traces) : TLCSet(100 + t, 0)

VARIABLES tid, l    \* the trace being explained, and the index of its next event

Evs == Traces[tid].ev
Cfg == Traces[tid].cfg
Ev  == Evs[l]
More == l <= Len(Evs)
IsEv(name) == More /\ Evs[l].e = name
TInit == tid \in 1..Len(Traces) /\ l = 1
Consume == l' = l + 1 /\ tid' = tid
Silent  == UNCHANGED <<tid, l>>

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Track == TLCSet(100 + tid, Max(TLCGet(100 + tid), l - 1))
Post == JsonSerialize(IOEnv.OUT_FILE, [t \in 1..Len(Traces) |-> TLCGet(100 + t)])

Range(s) == {s[i] : i \in 1..Len(s)}
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
============================================================================
