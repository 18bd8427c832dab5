--------------------------- MODULE WorkCacheTrace ---------------------------
EXTENDS TraceBase
VARIABLE kept
Size == 2
Me == "me"
W == INSTANCE WorkCache
TraceInit == TInit /\ W!WInit
TAdd == IsEv("add") /\ W!Add(Ev.from, Ev.key, Ev.n)
TGet == IsEv("get") /\ Ev.res = W!Find(Ev.from, Ev.key) /\ UNCHANGED kept
TraceNext == (TAdd \/ TGet) /\ Consume
=============================================================================
