--------------------------- MODULE MsgCacheTrace ---------------------------
EXTENDS TraceBase
VARIABLE store
Limit == 64
C == INSTANCE MsgCache
TraceInit == TInit /\ C!CInit
TAdd == IsEv("add") /\ C!Add(Ev.from, TLCEval([i \in 1..Ev.k |-> [w |-> Ev.w, t |-> Ev.t, n |-> Ev.n + i - 1]]))
TPop == IsEv("pop") /\ C!Result(Ev.res, Ev.w, Ev.f) /\ C!Pop(Ev.w, Ev.f)
TGet == IsEv("get") /\ C!Result(Ev.res, Ev.w, "all") /\ UNCHANGED store
TraceNext == (TAdd \/ TPop \/ TGet) /\ Consume
=============================================================================
