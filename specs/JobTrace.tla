------------------------------ MODULE JobTrace ------------------------------
(* The real jobs of all parties of a work.  cfg: kind, all, nodes, must (all succeed), limit (nobody can succeed).     *)
EXTENDS TraceBase, Proto
VARIABLES handed, result
TraceInit == TInit /\ handed = {} /\ result = {}
All == Range(Cfg.all)
Nodes == Range(Cfg.nodes)
Hand ==
  /\ IsEv("jmsg")
  /\ <<Ev.typ, Ev.to>> \in Messages(Cfg.kind, Ev.node, All)
  /\ <<Ev.node, Ev.typ, Ev.to>> \notin handed
  /\ handed' = handed \cup {<<Ev.node, Ev.typ, Ev.to>>} /\ UNCHANGED result
Result ==
  /\ IsEv("jres") /\ Ev.node \in Nodes /\ (\A x \in result : x[1] # Ev.node)
  /\ result' = result \cup {<<Ev.node, Ev.ok>>}
  /\ Ev.has = Ev.ok
  /\ Cfg.must => Ev.ok
  /\ Cfg.expire => ~Ev.ok
  /\ ~Ev.early
  /\ UNCHANGED handed
End ==
  /\ IsEv("end") /\ {x[1] : x \in result} = Nodes
  /\ \A x \in result : x[2] => \A m \in Messages(Cfg.kind, x[1], All) : <<x[1], m[1], m[2]>> \in handed
  /\ UNCHANGED <<handed, result>>
TraceNext == (Hand \/ Result \/ End) /\ Consume
=============================================================================
