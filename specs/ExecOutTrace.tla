---------------------------- MODULE ExecOutTrace ----------------------------
(* The combined messages that a real executor sends for the messages its jobs produce. *)
EXTENDS TraceBase
VARIABLES batch, out, sent, res, cause, report
X == INSTANCE Exec
vars == <<batch, out, sent, res, cause, report>>
TraceInit == TInit /\ X!ExecInit(Cfg.batch)
B == batch
\* Rounds and destinations of the scenario are named "round" or "round:destination".
Key == [typ |-> Ev.rounds[1], dest |-> IF Ev.kind = "cast" THEN "" ELSE Ev.to[1]]
Name(typ, dest) == IF dest = "" THEN typ ELSE typ \o ":" \o dest
All == Range(Cfg.all)
Produce == IsEv("produce") /\ X!Produce(Ev.key, Ev.j, Ev.pl)
Dispatch ==
  /\ IsEv("dispatch")
  /\ Ev.upd /\ Ev.work /\ Ev.from = Cfg.me
  /\ Len(Ev.pls) = B /\ Len(Ev.rounds) = B
  /\ \A i \in 1..B : Ev.rounds[i] = Ev.rounds[1]
  /\ IF Ev.kind = "cast" THEN (Ev.hdr = "" /\ (Range(Ev.to) = All \/ Range(Ev.to) = All \ {Cfg.me}) /\ Len(Ev.to) = Cardinality(Range(Ev.to)))
     ELSE (Len(Ev.to) = 1 /\ Ev.hdr = Ev.to[1])
  /\ LET k == Name(Key.typ, Key.dest)
     IN X!Dispatch(k) /\ Ev.pls = X!Payloads(k)
End == IsEv("end") /\ X!AllSent /\ UNCHANGED vars
TraceNext == (Produce \/ Dispatch \/ End) /\ Consume
=============================================================================
