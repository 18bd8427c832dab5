---------------------------- MODULE ExecNetTrace ----------------------------
(* Whole executions of a protocol by real executors of all parties: every party sends every message of the protocol   *)
(* exactly once, to exactly whom it is for and for all jobs of the batch at once, asks for messages only that can be  *)
(* missing, and reports exactly one result.                                                                          *)
(* cfg: kind, all, nodes (those that run), batch, must (everybody succeeds), bad (whose message was altered; "" if     *)
(* nobody's), nostart (nodes whose jobs cannot start), recover (missing messages are asked for).                      *)
EXTENDS TraceBase, Proto
VARIABLES sent,    \* set of <<node, type, destination>>
          result,  \* set of <<node, success>>
          digs,    \* the digests of results
          quiet    \* the works have ended for so long that nothing is asked for any more
vars == <<sent, result, digs, quiet>>
TraceInit == TInit /\ sent = {} /\ result = {} /\ digs = {} /\ quiet = FALSE
All == Range(Cfg.all)
Nodes == Range(Cfg.nodes)
Toall(me, to) == (Range(to) = All \/ Range(to) = All \ {me}) /\ Len(to) = Cardinality(Range(to))
Send ==
  /\ IsEv("send")
  /\ LET d == IF Ev.kind = "cast" THEN "*" ELSE Ev.to[1]
     IN /\ <<Ev.typ, d>> \in Messages(Cfg.kind, Ev.node, All)
        /\ <<Ev.node, Ev.typ, d>> \notin sent
        /\ sent' = sent \cup {<<Ev.node, Ev.typ, d>>}
  /\ IF Ev.kind = "cast" THEN (Ev.hdr = "" /\ Toall(Ev.node, Ev.to)) ELSE (Len(Ev.to) = 1 /\ Ev.hdr = Ev.to[1])
  /\ Ev.from = Ev.node /\ Ev.n = Cfg.batch /\ Ev.same /\ Ev.full /\ Ev.work
  /\ UNCHANGED <<result, digs, quiet>>
Ask ==
  /\ IsEv("ask") /\ Cfg.recover /\ ~quiet /\ ~Ev.had
  /\ Ev.work /\ Ev.from = Ev.node
  /\ Ev.of \in All \ {Ev.node}
  /\ \/ Ev.kind = "cast" /\ IsCast(Cfg.kind, Ev.typ) /\ ~Ev.hdr /\ Ev.dest = "" /\ Toall(Ev.node, Ev.to)
     \/ Ev.kind = "uni" /\ IsUni(Cfg.kind, Ev.typ) /\ Ev.hdr /\ Ev.dest = Ev.node /\ Ev.to = <<Ev.of>>
  /\ UNCHANGED vars
Result ==
  /\ IsEv("result") /\ Ev.node \in Nodes
  /\ \A x \in result : x[1] # Ev.node
  /\ result' = result \cup {<<Ev.node, Ev.ok>>}
  /\ Ev.ok => (Ev.valid /\ Ev.n = Cfg.batch)
  /\ digs' = IF Ev.ok THEN digs \cup {Ev.dig} ELSE digs
  /\ Cardinality(digs') <= 1
  /\ Cfg.must => Ev.ok
  \* A rejected message makes the work fail at once, and a job that cannot start as well.
  /\ (Cfg.bad # "" /\ Ev.node # Cfg.bad) => (~Ev.ok /\ Ev.soon)
  /\ (Ev.node \in Range(Cfg.nostart)) => (~Ev.ok /\ Ev.soon)
  /\ (~Cfg.must /\ Range(Cfg.nostart) # {}) => ~Ev.ok
  /\ UNCHANGED <<sent, quiet>>
Quiet == IsEv("quiet") /\ quiet' = TRUE /\ UNCHANGED <<sent, result, digs>>
\* Every node has reported a result; one that succeeded has sent everything.
End ==
  /\ IsEv("end")
  /\ {x[1] : x \in result} = Nodes
  /\ \A x \in result : x[2] => \A m \in Messages(Cfg.kind, x[1], All) : <<x[1], m[1], m[2]>> \in sent
  /\ UNCHANGED vars
TraceNext == (Send \/ Ask \/ Result \/ Quiet \/ End) /\ Consume
=============================================================================
