------------------------------- MODULE Resend -------------------------------
(* Authenticated messages and re-sending by one node Me.  A message on the network is                                 *)
(*   [from (claimed sender), signer (whose signature it carries), intact (content as signed)].                         *)
(* Only genuine messages of known parties have effects: broadcast protocol messages are kept for re-sending, and      *)
(* questions for a kept message are answered to whom the message was for.                                             *)
EXTENDS WorkCache, FiniteSets
VARIABLE known     \* the parties that Me knows
\* outer: the sender that the envelope names; inner: the sender that the content names.
Genuine(m) == m.outer = m.inner /\ m.inner = m.signer /\ m.intact /\ m.inner \in known
\* A key is <<work, from, to, round>>.
Keep(m, key, n) == IF Genuine(m) /\ key[3] = "" THEN Add(m.inner, key, n) ELSE UNCHANGED kept
Reply(m, key) ==
  LET n == Find(key[2], key) IN
  IF Genuine(m) /\ m.inner # Me /\ n # 0 /\ (key[3] = "" \/ key[3] = m.inner) THEN {<<m.inner, n>>} ELSE {}
=============================================================================
