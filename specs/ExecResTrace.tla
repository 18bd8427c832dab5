---------------------------- MODULE ExecResTrace ----------------------------
(* What a real executor reports for the results of its jobs. *)
EXTENDS TraceBase
VARIABLES batch, out, sent, res, cause, report
X == INSTANCE Exec
vars == <<batch, out, sent, res, cause, report>>
TraceInit == TInit /\ X!ExecInit(Cfg.batch)
B == batch
Res == IsEv("res") /\ X!Result(Ev.j, Ev.ok)
Timeout == IsEv("timeout") /\ X!Fail
Returned == (IsEv("resret") \/ IsEv("timeoutret")) /\ UNCHANGED vars
\* The results are at the positions of their jobs.
Report ==
  /\ IsEv("report") /\ X!Report(Ev.ok)
  /\ Ev.ok => (Len(Ev.tags) = B /\ \A i \in 1..B : Ev.tags[i] = Cfg.tags[i])
End == IsEv("end") /\ (X!MustReport => report # "none") /\ UNCHANGED vars
TraceNext == (Res \/ Timeout \/ Returned \/ Report \/ End) /\ Consume
=============================================================================
