------------------------------ MODULE StressTrace ----------------------------
(* Many threads call into a real engine while works start and end.  Events: calls [kind, begun, done], active [max]     *)
(* (most works seen active; informal), works [n, good, bad, invalid] (accepted works with one outcome per acceptance at most and   *)
(* at least one; others; invalid requests that were accepted), probe [node], outcome [node, id, what], end.               *)
EXTENDS TraceBase
VARIABLES asked, out
vars == <<asked, out>>
TraceInit == TInit /\ asked = {} /\ out = <<>>
Calls == IsEv("calls") /\ Ev.begun = Ev.done /\ UNCHANGED vars
Active == IsEv("active") /\ UNCHANGED vars
Works == IsEv("works") /\ Ev.bad = 0 /\ Ev.invalid = 0 /\ Ev.good = Ev.n /\ UNCHANGED vars
Probe == IsEv("probe") /\ asked' = asked \cup {Ev.node} /\ UNCHANGED out
Outcome == /\ IsEv("outcome") /\ Ev.id = "probe" /\ Ev.node \in asked /\ Ev.node \notin DOMAIN out
           /\ Cfg.probe => (Ev.what \in {"sign", "notsel"})
           /\ out' = TLCEval([x \in DOMAIN out \cup {Ev.node} |-> IF x = Ev.node THEN Ev.what ELSE out[x]]) /\ UNCHANGED asked
Did(what) == {x \in DOMAIN out : out[x] = what}
End == /\ IsEv("end") /\ asked = Range(Cfg.all) /\ DOMAIN out = asked
       /\ Cfg.probe => (Cardinality(Did("sign")) = Cfg.t + 1)
       /\ UNCHANGED vars
TraceNext == (Calls \/ Active \/ Works \/ Probe \/ Outcome \/ End) /\ Consume
==============================================================================
