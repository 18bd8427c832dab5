---------------------------- MODULE SelectionMC ----------------------------
(* A selection among a leader and members over a network that loses, duplicates and delays messages, with parties    *)
(* that are offline; time is abstracted to "the leader's (member's) limit passes", where the members' limit passes   *)
(* only after the leader's has passed and what the leader sent at that moment can have arrived.                      *)
EXTENDS Selection, TLC
CONSTANTS Members, Threshold, Batch, Kinds, PresignSets
Sets == {{}, {<<"p1", {"a", "b", "c"}>>}, {<<"p1", {"a", "b", "c"}>>, <<"p2", {"a", "b", "c", "d"}>>}, {<<"p1", {"a", "c", "d"}>>, <<"p2", {"a", "c", "d"}>>}}
VARIABLES work, owned, net, yes, leaderRes, memberRes, lostAny, offline, deadline
vars == <<work, owned, net, yes, leaderRes, memberRes, lostAny, offline, deadline>>
L == "a"
None == [st |-> "none"]
Init == /\ \E k \in Kinds : work = [kind |-> k, all |-> Members \cup {L}, t |-> Threshold, batch |-> Batch, leader |-> L]
        /\ owned \in (IF work.kind = "ecsign" THEN PresignSets ELSE {{}})
        /\ offline \in SUBSET Members
        /\ net = {[t |-> "resp", from |-> m] : m \in Members \ offline}
        /\ yes = {} /\ leaderRes = None /\ memberRes = [m \in Members |-> None] /\ lostAny = FALSE /\ deadline = FALSE
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Distinct(q)
Announce(S, ps, ok) == /\ leaderRes' = [st |-> IF ok THEN "ok" ELSE "fail", pids |-> IF ok THEN SeqOf(S) ELSE <<>>, ps |-> ps]
                       /\ net' = net \cup {[t |-> "ann", from |-> L, to |-> m] : m \in Members \ offline}
\* presigns of one owner set inside the answered parties: some batch of them
Usable(A) == {ids \in SUBSET Ids(owned) : /\ Cardinality(ids) = Batch
                                          /\ \E S \in SUBSET A : \A i \in ids : OwnersOf(owned, i) = {S}}
Decide(A, atEnd) ==
  IF work.kind = "keygen"
  THEN IF A = work.all THEN Announce(A, <<>>, TRUE)
       ELSE IF atEnd THEN Announce({}, <<>>, FALSE) ELSE UNCHANGED <<leaderRes, net>>
  ELSE IF work.kind = "edsign" /\ Cardinality(A) >= work.t + 1
  THEN \E S \in SUBSET A : Cardinality(S) = work.t + 1 /\ L \in S /\ Announce(S, <<>>, TRUE)
  ELSE IF work.kind = "ecsign" /\ Cardinality(A) >= work.t + 1 /\ Usable(A) # {}
  THEN \E ids \in Usable(A) : LET S == CHOOSE S \in SUBSET A : \A i \in ids : OwnersOf(owned, i) = {S}
                              IN Announce(S, SeqOf(ids), TRUE)
  ELSE IF work.kind = "ecsign" /\ Cardinality(A) >= work.t + 1 /\ (atEnd \/ A = work.all)
  THEN \E S \in SUBSET A : Cardinality(S) = work.t + 1 /\ L \in S /\ Announce(S, <<>>, TRUE)
  ELSE IF atEnd THEN Announce({}, <<>>, FALSE) ELSE UNCHANGED <<leaderRes, net>>
Resp == /\ \E m \in net : /\ m.t = "resp" /\ leaderRes.st = "none"
                          /\ yes' = yes \cup {m.from} /\ Decide(yes' \cup {L}, FALSE)
        /\ UNCHANGED <<work, owned, memberRes, lostAny, offline, deadline>>
LeaderLimit == /\ leaderRes.st = "none" /\ ~deadline
               /\ deadline' = TRUE /\ Decide(yes \cup {L}, TRUE)
               /\ UNCHANGED <<work, owned, yes, memberRes, lostAny, offline>>
Ann == /\ \E m \in net : /\ m.t = "ann" /\ memberRes[m.to].st = "none"
                         /\ LET o == Outcome(work, owned, m.to, [ok |-> leaderRes.st = "ok", pids |-> leaderRes.pids, ps |-> leaderRes.ps])
                            IN memberRes' = [memberRes EXCEPT ![m.to] = [st |-> o, pids |-> leaderRes.pids, ps |-> leaderRes.ps]]
       /\ UNCHANGED <<work, owned, net, yes, leaderRes, lostAny, offline, deadline>>
Lose == \E m \in net : net' = net \ {m} /\ lostAny' = TRUE /\ UNCHANGED <<work, owned, yes, leaderRes, memberRes, offline, deadline>>
MemberLimit == \E m \in Members \ offline :
                 /\ memberRes[m].st = "none" /\ leaderRes.st # "none"
                 /\ ~\E x \in net : x.t = "ann" /\ x.to = m
                 /\ memberRes' = [memberRes EXCEPT ![m] = [st |-> "timeout", pids |-> <<>>, ps |-> <<>>]]
                 /\ UNCHANGED <<work, owned, net, yes, leaderRes, lostAny, offline, deadline>>
Next == Resp \/ LeaderLimit \/ Ann \/ Lose \/ MemberLimit
Composed == leaderRes.st = "ok" => Composition(work, owned, yes, leaderRes.pids, leaderRes.ps)
\* The leader's announcement is accepted by everyone whom it reaches.
Accepted == \A m \in Members : memberRes[m].st \notin {"none", "timeout"} =>
              memberRes[m].st = (IF leaderRes.st = "fail" THEN "fail" ELSE IF m \in Elems(leaderRes.pids) THEN "join" ELSE "excluded")
Succeeds == (leaderRes.st = "fail") => ~Enough(work, yes)
Learns == ~lostAny => \A m \in Members : memberRes[m].st # "timeout"
\* Every online party ends.
Ended == (~ENABLED Next) => leaderRes.st # "none" /\ \A m \in Members \ offline : memberRes[m].st # "none"
=============================================================================
