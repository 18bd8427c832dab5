----------------------------- MODULE RecoveryMC -----------------------------
(* A protocol of several steps between nodes over a network that may lose the first transmission of every message.     *)
(* A node takes a step when it has all messages of the steps before.  A node that is waiting asks for what Monitor     *)
(* says; whoever has sent the message sends it again, which is not lost.  (A late message is one that was lost and     *)
(* sent again.)  Everybody always completes.                                                                          *)
EXTENDS Monitor, TLC
CONSTANTS Nodes, Kind
VARIABLES step,   \* how many steps a node has sent
          got     \* what a node has received
vars == <<step, got>>
T == Types(Kind)
Init == step = [n \in Nodes |-> 0] /\ got = [n \in Nodes |-> {}]
Ready(n) == step[n] < Len(T) /\ \A i \in 1..step[n] : \A p \in Nodes \ {n} : <<p, T[i]>> \in got[n]
Done(n) == step[n] = Len(T) /\ \A i \in 1..Len(T) : \A p \in Nodes \ {n} : <<p, T[i]>> \in got[n]
\* A node sends its next message to everybody; some transmissions are lost.
Step(n) == /\ Ready(n)
           /\ step' = [step EXCEPT ![n] = @ + 1]
           /\ \E l \in SUBSET (Nodes \ {n}) :
                got' = TLCEval([p \in Nodes |-> IF p = n \/ p \in l THEN got[p] ELSE got[p] \cup {<<n, T[step[n] + 1]>>}])
Sent(p, t) == \E i \in 1..step[p] : T[i] = t
Ask(n) == /\ ~Done(n)
          /\ \E x \in Missing(Kind, n, Nodes, got[n]) :
               /\ Sent(x[1], x[2])
               /\ got' = [got EXCEPT ![n] = @ \cup {x}]
          /\ UNCHANGED step
AnyStep == \E n \in Nodes : Step(n)
AnyAsk == \E n \in Nodes : Ask(n)
Next == AnyStep \/ AnyAsk
\* Nothing is asked that was received, and somebody who waits can always go on.
Precise == \A n \in Nodes : Missing(Kind, n, Nodes, got[n]) \cap got[n] = {}
NoStall == (\A n \in Nodes : Done(n)) \/ ENABLED Next
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == <>(\A n \in Nodes : Done(n))
=============================================================================
