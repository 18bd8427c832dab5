-------------------------------- MODULE Hostile ------------------------------
(* A node that gets messages of all kinds, well-formed or not, for works that it knows or not.  Every message is      *)
(* handled; what cannot be used is dropped, kept (a bounded number of every sender) or makes the work it is for fail;  *)
(* works that nobody attacks complete.                                                                              *)
EXTENDS Integers, FiniteSets
CONSTANTS Works, Senders, Cap, MaxMsgs
VARIABLES phase,   \* Works -> new, sel, exec, ok, failed
          inbox,   \* messages that arrived and are being handled: [from, work, kind], kind: junk, bad, good
          kept,    \* messages kept for works that have not started, by sender
          hit,     \* works for which a party sent something bad
          sent
vars == <<phase, inbox, kept, hit, sent>>
Ended == {"ok", "failed"}
Init == phase = [w \in Works |-> "new"] /\ inbox = {} /\ kept = [s \in Senders |-> 0] /\ hit = {} /\ sent = 0
Kinds == {"junk", "bad", "good"}
Arrive(m) == /\ sent < MaxMsgs /\ m \notin inbox
             /\ inbox' = inbox \cup {m} /\ sent' = sent + 1
             /\ hit' = IF m.kind = "bad" /\ m.work \in Works THEN hit \cup {m.work} ELSE hit
             /\ UNCHANGED <<phase, kept>>
\* What may happen to a work when message m is handled.
After(m) == IF m.kind # "bad" THEN {phase[m.work]} ELSE IF phase[m.work] \in {"sel", "exec"} THEN {phase[m.work], "failed"} ELSE {phase[m.work]}
Handle(m) == /\ m \in inbox /\ inbox' = inbox \ {m}
             /\ IF m.kind = "junk" THEN UNCHANGED <<phase, kept>>
                ELSE IF m.work \notin Works \/ (m.work \in Works /\ phase[m.work] \in {"new"} \cup Ended)
                THEN kept' = [kept EXCEPT ![m.from] = IF @ < Cap THEN @ + 1 ELSE @] /\ UNCHANGED phase
                ELSE (\E p \in After(m) : phase' = [phase EXCEPT ![m.work] = p]) /\ UNCHANGED kept
             /\ UNCHANGED <<hit, sent>>
\* A work that has kept bad messages may fail when it starts.
Start(w) == phase[w] = "new" /\ phase' = [phase EXCEPT ![w] = "sel"] /\ UNCHANGED <<inbox, kept, hit, sent>>
Select(w) == phase[w] = "sel" /\ phase' = [phase EXCEPT ![w] = "exec"] /\ UNCHANGED <<inbox, kept, hit, sent>>
Finish(w) == phase[w] = "exec" /\ phase' = [phase EXCEPT ![w] = "ok"] /\ UNCHANGED <<inbox, kept, hit, sent>>
Fail(w) == phase[w] \in {"sel", "exec"} /\ w \in hit /\ phase' = [phase EXCEPT ![w] = "failed"] /\ UNCHANGED <<inbox, kept, hit, sent>>
Msgs == [from : Senders, work : Works \cup {"other"}, kind : Kinds]
AnyArrive == \E m \in Msgs : Arrive(m)
AnyHandle == \E m \in Msgs : Handle(m)
AnyStep == \E w \in Works : Start(w) \/ Select(w) \/ Finish(w) \/ Fail(w)
Next == AnyArrive \/ AnyHandle \/ AnyStep
Spec == Init /\ [][Next]_vars /\ \A m \in Msgs : WF_vars(Handle(m))
             /\ \A w \in Works : WF_vars(Start(w)) /\ WF_vars(Select(w)) /\ WF_vars(Finish(w))
\* Properties
Bounded == \A s \in Senders : kept[s] <= Cap
OnlyHit == \A w \in Works : phase[w] = "failed" => w \in hit
EndedForGood == [][\A w \in Works : phase[w] \in Ended => phase'[w] = phase[w]]_vars
Handled == \A m \in Msgs : m \in inbox ~> m \notin inbox
AllEnd == <>(\A w \in Works : phase[w] \in Ended)
Unharmed == \A w \in Works : <>(phase[w] = "ok" \/ w \in hit)
=============================================================================
