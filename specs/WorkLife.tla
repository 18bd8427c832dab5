------------------------------ MODULE WorkLife ------------------------------
(* The life of a work, seen from outside: nodes get the request (some early, some late, some never), the leader       *)
(* announces who takes part, those who do execute the protocol, and every node reports exactly one outcome.           *)
EXTENDS Integers, FiniteSets
Outcomes == {"sign", "keygen", "notsel", "fail"}
IsKeygen(kind) == kind \in {"edkeygen", "eckeygen"}
(* What a node may report, given who was announced (ann: set of announced sets of parties; {} if the selection failed *)
(* or is still going on), and whether the node has stored the result of a key generation.                             *)
LegalOutcome(kind, node, what, ann, saved) ==
  \/ what = "fail"
  \/ what = "notsel" /\ ~IsKeygen(kind) /\ \E s \in ann : node \notin s
  \/ what = "sign" /\ ~IsKeygen(kind) /\ \E s \in ann : node \in s
  \/ what = "keygen" /\ IsKeygen(kind) /\ saved
\* Everybody who takes part succeeds, everybody else is told that it is not needed.
Expected(kind, node, ann) ==
  IF IsKeygen(kind) THEN {"keygen"} ELSE IF \E s \in ann : node \in s THEN {"sign"} ELSE {"notsel"}
=============================================================================
