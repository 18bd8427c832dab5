---------------------------- MODULE AskOutTrace ----------------------------
(* The questions that a real executor sends for missing messages: one for each, a message for all parties is asked     *)
(* from all of them, a message for this node only from its sender; nothing once it has stopped.                        *)
EXTENDS TraceBase, Proto
VARIABLES todo, stopped
TraceInit == TInit /\ todo = {} /\ stopped = FALSE
All == Range(Cfg.all)
Miss == IsEv("miss") /\ todo' = (IF stopped THEN {} ELSE {<<x[1], x[2]>> : x \in Range(Ev.miss)}) /\ UNCHANGED stopped
Ask == /\ IsEv("ask") /\ <<Ev.of, Ev.typ>> \in todo
       /\ todo' = todo \ {<<Ev.of, Ev.typ>>}
       /\ Ev.work /\ Ev.from = Ev.node
       /\ \/ Ev.kind = "cast" /\ IsCast(Cfg.kind, Ev.typ) /\ ~Ev.hdr /\ Ev.dest = "" /\ (Range(Ev.to) = All \/ Range(Ev.to) = All \ {Ev.node})
          \/ Ev.kind = "uni" /\ IsUni(Cfg.kind, Ev.typ) /\ Ev.hdr /\ Ev.dest = Ev.node /\ Ev.to = <<Ev.of>>
       /\ UNCHANGED stopped
Asked == IsEv("asked") /\ todo = {} /\ UNCHANGED <<todo, stopped>>
Stop == IsEv("stop") /\ stopped' = TRUE /\ UNCHANGED todo
End == IsEv("end") /\ UNCHANGED <<todo, stopped>>
TraceNext == (Miss \/ Ask \/ Asked \/ Stop \/ End) /\ Consume
=============================================================================
