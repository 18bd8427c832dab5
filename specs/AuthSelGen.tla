----------------------------- MODULE AuthSelGen ------------------------------
(* Scripts of a selection with genuine and forged messages. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES hist, leader, ph
R(S) == RandomElement(S)
Others == {"b", "c", "d"}
F(p) == IF R(1..100) <= p THEN "" ELSE R({"data", "to", "work", "type", "signer", "outer", "inner", "nosig", "stranger", "strangersig", "replay"})
Init == hist = <<>> /\ leader \in {"a", "b"} /\ ph = "pre"
Log(x) == hist' = Append(hist, x) /\ UNCHANGED leader
Via(f) == IF R(1..3) = 1 THEN R(Others) ELSE f
Resp == /\ leader = "a"
        /\ \E from \in Others : Log([op |-> "resp", from |-> from, via |-> Via(from), forge |-> F(25)])
        /\ UNCHANGED ph
Req == leader = "b" /\ R(1..5) = 1 /\ Log([op |-> "req", from |-> R(Others), via |-> "b", forge |-> F(40)]) /\ UNCHANGED ph
Ann == /\ (leader = "b" \/ R(1..6) = 1)
       /\ \E sel \in {<<"b", "a", "c">>, <<"d", "b", "a">>, <<"b", "c", "d">>}, x \in {1, 2} :
            Log([op |-> "ann", from |-> IF R(1..4) = 1 THEN R(Others) ELSE "b", via |-> Via("b"), forge |-> F(25), ok |-> R(1..5) # 1, sel |-> sel])
       /\ UNCHANGED ph
Start == ph = "pre" /\ Log([op |-> "start"]) /\ ph' = "run"
Next == Len(hist) < N /\ (Resp \/ Req \/ Ann \/ Start \/ Start)
Emit == Len(hist) < N \/ PrintT(ToJson([cfg |-> [leader |-> leader], ops |-> hist]))
=============================================================================
