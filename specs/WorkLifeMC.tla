----------------------------- MODULE WorkLifeMC -----------------------------
(* One work on all nodes: submission, selection with its two time limits, messages that arrive before their work      *)
(* starts, execution with time limit, storing the result of a key generation, outcome.                                *)
EXTENDS WorkLife, TLC
CONSTANTS Nodes, Leader, T, Kind, Faults   \* Faults: things may go wrong
VARIABLES phase,   \* per node: idle, sel (selection), exec, done
          yes,     \* who has answered to the leader
          ann,     \* who was announced (a set of at most one set of parties)
          failed,  \* the leader has announced a failure
          early,   \* messages that have arrived at a node, whether or not its work has started
          sent,    \* who has sent its protocol message
          got,     \* messages the protocol run of a node has received
          saved, outcome
vars == <<phase, yes, ann, failed, early, sent, got, saved, outcome>>
Undecided == ann = {} /\ ~failed
Chosen(n) == \E s \in ann : n \in s
Init == /\ phase = [n \in Nodes |-> "idle"] /\ yes = {} /\ ann = {} /\ failed = FALSE
        /\ early = [n \in Nodes |-> {}] /\ sent = {} /\ got = [n \in Nodes |-> {}]
        /\ saved = {} /\ outcome = [n \in Nodes |-> {}]
Report(n, what) == outcome' = [outcome EXCEPT ![n] = @ \cup {what}] /\ phase' = [phase EXCEPT ![n] = "done"]
Submit(n) == phase[n] = "idle" /\ phase' = [phase EXCEPT ![n] = "sel"]
             /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved, outcome>>
\* A node in selection answers to the leader (the leader to itself at once).
Answer(n) == phase[n] = "sel" /\ n \notin yes /\ yes' = yes \cup {n}
             /\ UNCHANGED <<phase, ann, failed, early, sent, got, saved, outcome>>
Needed == IF IsKeygen(Kind) THEN Cardinality(Nodes) ELSE T + 1
Announce == /\ phase[Leader] = "sel" /\ Undecided /\ Leader \in yes
            /\ \E s \in SUBSET yes : Leader \in s /\ Cardinality(s) = Needed /\ ann' = {s}
            /\ phase' = [phase EXCEPT ![Leader] = "exec"]
            /\ UNCHANGED <<yes, failed, early, sent, got, saved, outcome>>
LeaderLimit == /\ Faults /\ phase[Leader] = "sel" /\ Undecided
               /\ failed' = TRUE /\ Report(Leader, "fail")
               /\ UNCHANGED <<yes, ann, early, sent, got, saved>>
Learn(n) == /\ n # Leader /\ phase[n] = "sel" /\ ~Undecided
            /\ IF failed THEN Report(n, "fail")
               ELSE IF Chosen(n) THEN phase' = [phase EXCEPT ![n] = "exec"] /\ UNCHANGED outcome
               ELSE Report(n, "notsel")
            /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved>>
MemberLimit(n) == Faults /\ n # Leader /\ phase[n] = "sel" /\ Report(n, "fail")
                  /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved>>
SendMsg(n) == phase[n] = "exec" /\ n \notin sent /\ sent' = sent \cup {n}
              /\ UNCHANGED <<phase, yes, ann, failed, early, got, saved, outcome>>
Arrive(n, m) == m \in sent /\ m # n /\ m \notin early[n]
                /\ early' = [early EXCEPT ![n] = @ \cup {m}]
                /\ UNCHANGED <<phase, yes, ann, failed, sent, got, saved, outcome>>
Take(n) == phase[n] = "exec" /\ early[n] # got[n] /\ got' = [got EXCEPT ![n] = early[n]]
           /\ UNCHANGED <<phase, yes, ann, failed, early, sent, saved, outcome>>
Complete(n) == phase[n] = "exec" /\ n \in sent /\ \E s \in ann : (s \ {n}) \subseteq got[n]
Save(n) == IsKeygen(Kind) /\ Complete(n) /\ n \notin saved /\ saved' = saved \cup {n}
           /\ UNCHANGED <<phase, yes, ann, failed, early, sent, got, outcome>>
SaveFails(n) == Faults /\ IsKeygen(Kind) /\ Complete(n) /\ n \notin saved /\ Report(n, "fail")
           /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved>>
Succeed(n) == /\ Complete(n) /\ (IsKeygen(Kind) => n \in saved)
              /\ Report(n, IF IsKeygen(Kind) THEN "keygen" ELSE "sign")
              /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved>>
ExecFails(n) == Faults /\ phase[n] = "exec" /\ n \notin saved /\ Report(n, "fail")
                /\ UNCHANGED <<yes, ann, failed, early, sent, got, saved>>
AnySubmit == \E n \in Nodes : Submit(n)
AnyAnswer == \E n \in Nodes : Answer(n)
AnyLearn == \E n \in Nodes : Learn(n) \/ MemberLimit(n)
AnyMsg == \E n \in Nodes : SendMsg(n) \/ Take(n) \/ \E m \in Nodes : Arrive(n, m)
AnyEnd == \E n \in Nodes : Save(n) \/ SaveFails(n) \/ Succeed(n) \/ ExecFails(n)
Next == AnySubmit \/ AnyAnswer \/ Announce \/ LeaderLimit \/ AnyLearn \/ AnyMsg \/ AnyEnd
OneOutcome == \A n \in Nodes : Cardinality(outcome[n]) <= 1 /\ ((outcome[n] # {}) <=> (phase[n] = "done"))
Legal == \A n \in Nodes : \A w \in outcome[n] : LegalOutcome(Kind, n, w, ann, n \in saved)
Good == ~Faults => \A n \in Nodes : outcome[n] \subseteq Expected(Kind, n, ann)
Enough == \A n \in Nodes : ("sign" \in outcome[n] => \A s \in ann : s \subseteq sent) /\ ("keygen" \in outcome[n] => Nodes \subseteq sent)
Spec == Init /\ [][Next]_vars /\ \A n \in Nodes : WF_vars(Submit(n)) /\ WF_vars(Answer(n)) /\ WF_vars(Learn(n) \/ MemberLimit(n))
        /\ WF_vars(Succeed(n)) /\ WF_vars(Save(n)) /\ WF_vars(Take(n)) /\ WF_vars(SendMsg(n)) /\ (\A m \in Nodes : WF_vars(Arrive(n, m))) /\ WF_vars(ExecFails(n)) /\ WF_vars(Announce \/ LeaderLimit)
Ends == \A n \in Nodes : phase[n] = "sel" ~> outcome[n] # {}
=============================================================================
