------------------------------- MODULE Blame -------------------------------
(* The blame manager (blame/manager.go). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sent,   \* set of <<work, round, party>>: who sent something
          bad,    \* set of <<work, round, party>>: who was recorded as misbehaving
          pre     \* sequence of parties recorded before execution
BInit == sent = {} /\ bad = {} /\ pre = <<>>
Send(w, r, p) == sent' = sent \cup {<<w, r, p>>} /\ UNCHANGED <<bad, pre>>
Bad(w, r, ps) == bad' = bad \cup {<<w, r, p>> : p \in ps} /\ UNCHANGED <<sent, pre>>
Pre(ps) == pre' = pre \o ps /\ UNCHANGED <<sent, bad>>
Culprits(w, r, ps) == {p \in ps : <<w, r, p>> \notin sent \/ <<w, r, p>> \in bad}
=============================================================================
