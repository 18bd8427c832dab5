------------------------------ MODULE HostileGen -----------------------------
(* Histories for a network of real engines: works that go through their phases step by step, while node a gets hostile  *)
(* messages.  Hard: parties of the works attack them; otherwise only strangers, junk, repeated messages and other works. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Hard
VARIABLES hist, st
R(S) == RandomElement(S)
Junk == {"bytes", "json", "cut", "nosig", "peer", "spoof"}
Signed == {"flip", "type", "req", "resp", "ann", "ask", "uempty", "unull", "ucount", "udata", "uroute", "ucontent", "umutate", "uswap"}
Weighted(x) == IF R(1..4) = 1 THEN R(Junk) ELSE IF R(1..12) = 1 THEN "replay" ELSE IF R(1..40) = 1 THEN "big" ELSE IF R(1..4) = 1 THEN "umutate" ELSE R(Signed)
W == {"w1", "w2"}
Init == hist = <<>> /\ st = [w \in W |-> "none"]
Log(x) == hist' = Append(hist, x)
Kind(x) == R({"edsign", "edsign", "ecsign", "edkeygen"})
Kinds == {hist[i].kind : i \in {j \in 1..Len(hist) : hist[j].op = "work"}}
Work(w) == /\ st[w] = "none" /\ (w = "w1" \/ (st["w1"] # "none" /\ R(1..3) = 1))
           /\ \E k0 \in {Kind(w)}, early \in {R(1..3) = 1} :
              LET k == IF k0 = "edkeygen" /\ k0 \in Kinds THEN "edsign" ELSE k0
              IN /\ Log([op |-> "work", work |-> w, kind |-> k, leader |-> R({"a", "b", "c"}), batch |-> IF k = "edkeygen" THEN 1 ELSE R(1..2), early |-> early])
                 /\ st' = [st EXCEPT ![w] = IF early THEN "early" ELSE "run"]
Late(w) == st[w] = "early" /\ R(1..2) = 1 /\ Log([op |-> "late", work |-> w]) /\ st' = [st EXCEPT ![w] = "run"]
Step(w) == st[w] \in {"run", "early"} /\ Log([op |-> "step", work |-> w]) /\ UNCHANGED st
Wait(w) == st[w] = "run" /\ R(1..6) = 1 /\ Log([op |-> "wait", work |-> w]) /\ st' = [st EXCEPT ![w] = "done"]
Msg(i) == /\ \E c \in {Weighted(i)}, own \in {R({"w1", "w2"})}, other \in {R(1..3) = 1}, f \in {IF R(1..5) = 1 THEN "s" ELSE R({"b", "c"})} :
             LET w == IF Hard THEN (IF other THEN "none" ELSE own) ELSE IF c \in Junk \cup {"replay"} THEN own ELSE "none"
             IN Log([op |-> "msg", class |-> c, from |-> f, work |-> IF f = "s" THEN own ELSE w, k |-> R({1, 1, 1, 3})])
          /\ UNCHANGED st
Next == Len(hist) < N /\ (IF hist = <<>> /\ R(1..3) > 1 THEN Work("w1") ELSE
          ((\E w \in W : Work(w) \/ Late(w) \/ Step(w) \/ Wait(w)) \/ (\E i \in 1..3 : Msg(i))))
Emit == Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
