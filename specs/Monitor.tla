------------------------------ MODULE Monitor ------------------------------
(* Which protocol messages a node asks for when nothing has arrived for the configured time                            *)
(* (worker/components/message_monitor.go).  rcvd: set of <<sender, type>>.                                             *)
EXTENDS Proto
Types(kind) == [i \in 1..Len(Protocol(kind)) |-> Protocol(kind)[i][1]]
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
\* The last step of the protocol of which a message was received from anybody else.
Heard(kind, me, all, rcvd) == SetMax({i \in 1..Len(Types(kind)) : \E p \in all \ {me} : <<p, Types(kind)[i]>> \in rcvd})
Gaps(kind, me, all, rcvd) == {<<p, Types(kind)[i]>> : p \in all \ {me}, i \in 1..Heard(kind, me, all, rcvd)} \ rcvd
NextStep(kind, me, all, rcvd) ==
  IF Heard(kind, me, all, rcvd) = Len(Types(kind)) THEN {}
  ELSE {<<p, Types(kind)[Heard(kind, me, all, rcvd) + 1]>> : p \in all \ {me}}
Missing(kind, me, all, rcvd) ==
  IF Gaps(kind, me, all, rcvd) # {} THEN Gaps(kind, me, all, rcvd) ELSE NextStep(kind, me, all, rcvd)
=============================================================================
