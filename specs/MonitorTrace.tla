---------------------------- MODULE MonitorTrace ----------------------------
(* What a real monitor asks for.  cand: what was received at some time since the last pause, because the monitor may   *)
(* look at any time.                                                                                                  *)
EXTENDS TraceBase, Monitor
VARIABLES rcvd, cand, stopped, pausing
vars == <<rcvd, cand, stopped, pausing>>
TraceInit == TInit /\ rcvd = {} /\ cand = {{}} /\ stopped = FALSE /\ pausing = FALSE
All == Range(Cfg.all)
M(s) == Missing(Cfg.kind, Cfg.me, All, s)
Rcv == /\ IsEv("rcv")
       /\ rcvd' = IF Ev.from \in All /\ Ev.typ \in Range(Types(Cfg.kind)) THEN rcvd \cup {<<Ev.from, Ev.typ>>} ELSE rcvd
       /\ cand' = cand \cup {rcvd'}
       /\ pausing' = FALSE /\ UNCHANGED stopped
Pause == IsEv("pause") /\ cand' = cand \cup {rcvd} /\ pausing' = TRUE /\ UNCHANGED <<rcvd, stopped>>
Ask == /\ IsEv("ask") /\ ~stopped /\ ~Ev.early
       /\ Ev.miss # <<>>
       /\ Len(Ev.miss) = Cardinality(Range(Ev.miss))
       /\ \E s \in cand : Range(Ev.miss) = M(s)
       /\ cand' = IF pausing /\ Range(Ev.miss) = M(rcvd) THEN {rcvd} ELSE cand
       /\ UNCHANGED <<rcvd, stopped, pausing>>
NoAsk == IsEv("noask") /\ (stopped \/ M(rcvd) = {}) /\ UNCHANGED vars
Stopped == IsEv("stopped") /\ stopped' = TRUE /\ UNCHANGED <<rcvd, cand, pausing>>
End == IsEv("end") /\ UNCHANGED vars
TraceNext == (Rcv \/ Pause \/ Ask \/ NoAsk \/ Stopped \/ End) /\ Consume
=============================================================================
