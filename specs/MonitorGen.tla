----------------------------- MODULE MonitorGen -----------------------------
(* Histories for a real monitor: messages in any order, pauses, and a stop. *)
EXTENDS Monitor, TLC, Json
CONSTANTS N, Kinds, Sizes
VARIABLES hist, kind, all, rcvd
Names == <<"a", "b", "c", "d">>
Init == /\ hist = <<>> /\ rcvd = {}
        /\ kind \in Kinds /\ \E n \in Sizes : all = {Names[i] : i \in 1..n}
Stopped == Len(hist) > 0 /\ hist[Len(hist)].op = "stop"
Cands == {<<p, Types(kind)[i]>> : p \in all \ {"a"}, i \in 1..Len(Types(kind))} \ rcvd
\* Prefer messages of early steps, as in a real run.
Early == {x \in Cands : \E i \in 1..Len(Types(kind)) : x[2] = Types(kind)[i] /\ i <= Heard(kind, "a", all, rcvd) + 1}
Rcv == LET c == IF Early # {} /\ RandomElement(1..5) > 1 THEN Early ELSE Cands
       IN /\ c # {}
          /\ LET x == RandomElement(c) IN
             /\ hist' = Append(hist, [op |-> "rcv", from |-> x[1], typ |-> x[2]])
             /\ rcvd' = rcvd \cup {x}
Odd == /\ RandomElement(1..8) = 1
       /\ \E x \in {<<"a", Types(kind)[1]>>, <<"b", "Unknown">>, <<"z", Types(kind)[1]>>} :
            hist' = Append(hist, [op |-> "rcv", from |-> x[1], typ |-> x[2]]) /\ UNCHANGED rcvd
Wait == Len(hist) > 0 /\ hist[Len(hist)].op # "wait" /\ hist' = Append(hist, [op |-> "wait"]) /\ UNCHANGED rcvd
WaitAgain == RandomElement(1..4) = 1 /\ hist' = Append(hist, [op |-> "wait"]) /\ UNCHANGED rcvd
Stop == Len(hist) >= 3 /\ RandomElement(1..6) = 1 /\ hist' = Append(hist, [op |-> "stop"]) /\ UNCHANGED rcvd
Next == Len(hist) < N /\ ~Stopped /\ UNCHANGED <<kind, all>> /\ (Rcv \/ Rcv \/ Odd \/ Wait \/ WaitAgain \/ Stop)
Emit == (Len(hist) < N /\ ~Stopped) \/ PrintT(ToJson([ops |-> hist, cfg |-> [kind |-> kind, n |-> Cardinality(all)]]))
=============================================================================
