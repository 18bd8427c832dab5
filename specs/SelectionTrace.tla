--------------------------- MODULE SelectionTrace ---------------------------
(* Recorded selections: the answers and announcements that reached each node, what each node announced, and what it  *)
(* reported.  Messages that reached a node close to its time limit (or on a slow machine) may or may not count.       *)
EXTENDS TraceBase
VARIABLES yes, sure, anns, res, announced, used
svars == <<yes, sure, anns, res, announced, used>>
S == INSTANCE Selection
W == [kind |-> Cfg.kind, all |-> Range(Cfg.all), t |-> Cfg.t, batch |-> Cfg.batch, leader |-> Cfg.leader]
Nodes == Range(Cfg.nodes)
Owned(n) == {<<Cfg.owned[i][1], Range(Cfg.owned[i][2])>> : i \in 1..Len(Cfg.owned)}
Usable(n) == {x \in Owned(n) : x[1] \notin used[n]}
None == [st |-> "none"]
TraceInit == /\ TInit
             /\ yes = [n \in Nodes |-> {}] /\ sure = [n \in Nodes |-> {}] /\ anns = [n \in Nodes |-> {}]
             /\ res = [n \in Nodes |-> None] /\ announced = [n \in Nodes |-> None] /\ used = [n \in Nodes |-> Range(Cfg.used)]
InTime == Ev.intime /\ ~Cfg.slow
Resp == /\ IsEv("resp")
        /\ IF Ev.ans = "yes" THEN yes' = [yes EXCEPT ![Ev.node] = @ \cup {Ev.from}] ELSE UNCHANGED yes
        /\ sure' = [sure EXCEPT ![Ev.node] = IF Ev.ans # "yes" THEN @ \ {Ev.from} ELSE IF InTime THEN @ \cup {Ev.from} ELSE @]
        /\ UNCHANGED <<anns, res, announced, used>>
\* Only the leader's announcements count; one without content is no announcement.
Ann == /\ IsEv("ann")
       /\ anns' = IF Ev.from = W.leader /\ Ev.content
                  THEN [anns EXCEPT ![Ev.node] = @ \cup {[ok |-> Ev.ok, pids |-> Ev.pids, ps |-> Ev.ps, intime |-> InTime]}]
                  ELSE anns
       /\ UNCHANGED <<yes, sure, res, announced, used>>
\* The order in which the set is listed does not matter.
Same(a, b) == a.st = b.st /\ (a.st = "ok" => Range(a.pids) = Range(b.pids) /\ Len(a.pids) = Len(b.pids) /\ a.ps = b.ps)
LeaderResult(r) ==
  /\ IF r.st = "ok" THEN S!Composition(W, Usable(Ev.node), yes[Ev.node], r.pids, r.ps)
     ELSE r.st = "fail" /\ ~S!Enough(W, sure[Ev.node])
  /\ announced[Ev.node].st # "none" => Same(r, announced[Ev.node])
  /\ used' = [used EXCEPT ![Ev.node] = @ \cup Range(Ev.ps)]
MemberResult(r) ==
  /\ \/ \E a \in anns[Ev.node] :
          LET o == S!Outcome(W, Usable(Ev.node), Ev.node, a)
              \* Presigns mean nothing for other works than ECDSA signings: accepting or refusing is all right.
              odd == a.ok /\ a.ps # <<>> /\ W.kind # "ecsign"
              o2 == S!Outcome(W, Usable(Ev.node), Ev.node, [a EXCEPT !.ps = <<>>])
          IN CASE r.st = "fail" -> o = "fail" \/ odd \/ (o = "excluded" /\ a.ps # <<>> /\ (Len(a.ps) # W.batch \/ ~S!Distinct(a.ps)))
               [] r.st = "excluded" -> o = "excluded"
               [] r.st = "ok" -> (o = "join" \/ (odd /\ o2 = "join")) /\ Range(r.pids) = Range(a.pids) /\ Len(r.pids) = Len(a.pids)
                                 /\ (r.ps = a.ps \/ odd)
     \* presigns of other parties than those announced may be refused
     \/ r.st = "fail" /\ \E a \in anns[Ev.node] : a.ok /\ \E i \in Range(a.ps) : S!OwnersOf(Usable(Ev.node), i) # {Range(a.pids)}
     \* no announcement until the limit
     \/ r.st = "fail" /\ ~\E a \in anns[Ev.node] : a.intime
     \* its database failed
     \/ r.st = "fail" /\ Cfg.dbfail /\ \E a \in anns[Ev.node] : a.ps # <<>>
  /\ used' = [used EXCEPT ![Ev.node] = @ \cup Range(Ev.ps)]
Result == /\ IsEv("result") /\ res[Ev.node].st = "none"
          /\ LET r == [st |-> Ev.st, pids |-> Ev.pids, ps |-> Ev.ps] IN
             /\ IF Ev.node = W.leader THEN LeaderResult(r) ELSE MemberResult(r)
             /\ res' = [res EXCEPT ![Ev.node] = r]
          /\ UNCHANGED <<yes, sure, anns, announced>>
\* Only the leader announces, once, to all the others.
Announce == /\ IsEv("announce") /\ Ev.node = W.leader /\ announced[Ev.node].st = "none"
            /\ Range(Ev.to) \cup {W.leader} = W.all
            /\ LET r == [st |-> IF Ev.ok THEN "ok" ELSE "fail", pids |-> Ev.pids, ps |-> Ev.ps] IN
               /\ announced' = [announced EXCEPT ![Ev.node] = r]
               /\ res[Ev.node].st # "none" => Same(r, res[Ev.node])
            /\ UNCHANGED <<yes, sure, anns, res, used>>
\* The answer of a member goes to the work's leader (or to whom asked for it).
Answer == /\ IsEv("answer") /\ (Ev.node # W.leader => (Ev.to = W.leader \/ Ev.asked))
          /\ UNCHANGED svars
\* Nothing was lost: every online member knows the leader's outcome.
Learned == /\ IsEv("learned")
           /\ (~Ev.skip /\ W.leader \in Nodes) =>
                 \A n \in Nodes \ {W.leader} :
                    res[n].st = (IF res[W.leader].st # "ok" THEN "fail"
                                 ELSE IF n \in Range(res[W.leader].pids) THEN "ok" ELSE "excluded")
           /\ UNCHANGED svars
Other == IsEv("start") /\ UNCHANGED svars
\* The scenario is over: everyone has ended, and a success was announced.
End == /\ IsEv("end") /\ \A n \in Nodes : res[n].st # "none"
       /\ W.leader \in Nodes => (res[W.leader].st = "ok" => announced[W.leader].st = "ok")
       /\ UNCHANGED svars
TraceNext == (Resp \/ Ann \/ Result \/ Announce \/ Answer \/ Learned \/ Other \/ End) /\ Consume
=============================================================================
