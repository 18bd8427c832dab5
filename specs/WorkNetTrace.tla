---------------------------- MODULE WorkNetTrace ----------------------------
(* Works executed by real engines: every accepted request of every node has exactly one outcome, which the announced  *)
(* selection and the stored result justify; reported results are right, complete and the same everywhere.             *)
(* cfg: all; works [id, kind, batch, leader, able (its messages can be signed)]; must: works in which nothing goes wrong; failkey: nodes that cannot      *)
(* store keys.                                                                                                        *)
EXTENDS TraceBase, WorkLife
VARIABLES live,    \* set of <<node, work>> that were accepted and have no outcome yet
          ended,   \* set of <<node, work, outcome>>
          anns,    \* set of <<work, announced set>>
          saved,   \* set of <<node, work>>
          digs     \* set of <<work, digest of the result>>
vars == <<live, ended, anns, saved, digs>>
TraceInit == TInit /\ live = {} /\ ended = {} /\ anns = {} /\ saved = {} /\ digs = {}
Work(id) == Cfg.works[CHOOSE i \in 1..Len(Cfg.works) : Cfg.works[i].id = id]
Ids == {Cfg.works[i].id : i \in 1..Len(Cfg.works)}
Sets(id) == {a[2] : a \in {x \in anns : x[1] = id}}
Submit == IsEv("submit") /\ Ev.id \in Ids /\ live' = live \cup {<<Ev.node, Ev.id>>} /\ UNCHANGED <<ended, anns, saved, digs>>
\* Nothing that these scenarios submit may be refused.
Announce ==
  /\ IsEv("announce") /\ Ev.id \in Ids
  /\ Ev.node = Work(Ev.id).leader
  /\ \A a \in anns : a[1] # Ev.id
  /\ anns' = IF Ev.ok THEN anns \cup {<<Ev.id, Range(Ev.sel)>>} ELSE anns
  /\ UNCHANGED <<live, ended, saved, digs>>
Saved == IsEv("saved") /\ <<Ev.node, Ev.id>> \in live /\ saved' = saved \cup {<<Ev.node, Ev.id>>} /\ UNCHANGED <<live, ended, anns, digs>>
Outcome ==
  /\ IsEv("outcome") /\ Ev.id \in Ids
  /\ <<Ev.node, Ev.id>> \in live
  /\ live' = live \ {<<Ev.node, Ev.id>>}
  /\ ended' = ended \cup {<<Ev.node, Ev.id, Ev.what>>}
  /\ LET w == Work(Ev.id) IN
     \* An excluded node may learn it later than a result, but an announcement is always seen before its effects.
     /\ LegalOutcome(w.kind, Ev.node, Ev.what, Sets(Ev.id), <<Ev.node, Ev.id>> \in saved)
     /\ (Ev.id \in Range(Cfg.must) /\ ~(IsKeygen(w.kind) /\ Range(Cfg.failkey) # {})) => (Ev.what \in Expected(w.kind, Ev.node, Sets(Ev.id)) \/ (~w.able /\ Ev.what = "fail" /\ (\A x \in Sets(Ev.id) : Ev.node \in x)))
     /\ (IsKeygen(w.kind) /\ Ev.node \in Range(Cfg.failkey)) => Ev.what = "fail"
     /\ Ev.what = "sign" => (Ev.n = w.batch /\ Ev.valid)
     /\ Ev.what = "keygen" => Ev.valid
  /\ digs' = IF Ev.what \in {"sign", "keygen"} THEN digs \cup {<<Ev.id, Ev.dig>>} ELSE digs
  /\ \A x, y \in digs' : x[1] = y[1] => x[2] = y[2]
  /\ UNCHANGED <<anns, saved>>
Active == IsEv("active") /\ Ev.n = 0 /\ UNCHANGED vars
Out == IsEv("out") /\ Ev.bad = 0 /\ UNCHANGED vars
End == IsEv("end") /\ live = {} /\ UNCHANGED vars
TraceNext == (Submit \/ Announce \/ Saved \/ Outcome \/ Active \/ Out \/ End) /\ Consume
=============================================================================
