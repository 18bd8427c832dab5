------------------------------ MODULE HostileTrace ---------------------------
(* Real engines run works while node a gets hostile messages.  Events: submit [node, id], msg [k, work, signed] (a      *)
(* hostile message is given to node a; signed: by a party, as itself), ret [k] (its handling has returned),             *)
(* outcome [node, id, what, valid, dig], end.                                                                        *)
EXTENDS TraceBase
VARIABLES inbox, hit, asked, out, dig
vars == <<inbox, hit, asked, out, dig>>
TraceInit == TInit /\ inbox = {} /\ hit = {} /\ asked = {} /\ out = <<>> /\ dig = <<>>
Probe(id) == id \in {"p0", "p1", "p2"}
Submit == IsEv("submit") /\ asked' = asked \cup {<<Ev.node, Ev.id>>} /\ UNCHANGED <<inbox, hit, out, dig>>
Msg == IsEv("msg") /\ inbox' = inbox \cup {Ev.k} /\ hit' = (IF Ev.signed THEN hit \cup {Ev.work} ELSE hit) /\ UNCHANGED <<asked, out, dig>>
Ret == IsEv("ret") /\ Ev.k \in inbox /\ inbox' = inbox \ {Ev.k} /\ UNCHANGED <<hit, asked, out, dig>>
\* Works that nobody attacks succeed.
Must(id) == id \notin hit /\ (IF Probe(id) THEN Cfg.probe ELSE Cfg.must)
Outcome == LET k == <<Ev.node, Ev.id>> IN
           /\ IsEv("outcome") /\ k \in asked /\ k \notin DOMAIN out
           /\ Ev.what \in {"fail", "notsel", "sign", "keygen"}
           /\ (Ev.what = "keygen") => (Cfg.kinds[Ev.id] \in {"eckeygen", "edkeygen"})
           /\ (Ev.what \in {"sign", "notsel"}) => (Cfg.kinds[Ev.id] \in {"ecsign", "edsign"})
           /\ Must(Ev.id) => (Ev.what # "fail")
           /\ (Ev.what = "sign") => Ev.valid
           \* The nodes agree about the result.
           /\ ((Ev.what \in {"sign", "keygen"}) /\ Ev.id \in DOMAIN dig /\ Ev.id \notin hit) => (Ev.dig = dig[Ev.id])
           /\ out' = TLCEval([x \in DOMAIN out \cup {k} |-> IF x = k THEN Ev.what ELSE out[x]])
           /\ dig' = (IF Ev.what \in {"sign", "keygen"} /\ Ev.id \notin DOMAIN dig THEN TLCEval([x \in DOMAIN dig \cup {Ev.id} |-> IF x = Ev.id THEN Ev.dig ELSE dig[x]]) ELSE dig)
           /\ UNCHANGED <<inbox, hit, asked>>
Ids == {x[2] : x \in asked}
Did(id, what) == {x \in DOMAIN out : x[2] = id /\ out[x] = what}
End == /\ IsEv("end") /\ inbox = {} /\ asked = DOMAIN out
       /\ \A id \in Ids : Must(id) =>
            (IF Cfg.kinds[id] \in {"eckeygen", "edkeygen"} THEN Cardinality(Did(id, "keygen")) = Len(Cfg.all)
             ELSE Cardinality(Did(id, "sign")) = Cfg.t + 1)
       /\ UNCHANGED vars
TraceNext == (Submit \/ Msg \/ Ret \/ Outcome \/ End) /\ Consume
=============================================================================
