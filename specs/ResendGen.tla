------------------------------ MODULE ResendGen ------------------------------
(* Histories for a real engine: own and received messages, bursts that push out old ones, questions, new parties. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Forge
VARIABLES hist
R(S) == RandomElement(S)
Works == {"w1", "w__2"}
Rounds == {"R1", "R2"}
Others == {"b", "c", "d"}
\* how a message is forged ("": genuine)
F(x) == IF ~Forge \/ R(1..2) = 1 THEN "" ELSE R({"data", "to", "work", "type", "signer", "outer", "inner", "nosig", "stranger", "strangersig", "replay"})
Init == hist = <<>>
Log(x) == hist' = Append(hist, x)
Own == \E to \in {"", "", R(Others), "z", "all+z"} :
         Log([op |-> "own", work |-> R(Works), round |-> R(Rounds), to |-> to, typ |-> IF R(1..8) = 1 THEN "sel" ELSE "upd"])
Get == \E from \in Others :
         Log([op |-> "net", from |-> from, via |-> IF R(1..3) = 1 THEN R({"b", "c", "d"}) ELSE from, work |-> R(Works), round |-> R(Rounds),
              to |-> IF R(1..5) = 1 THEN "a" ELSE "", forge |-> F(0)])
Burst == \E from \in {"a", R(Others)} : R(1..3) = 1 /\
         Log([op |-> "burst", from |-> from, k |-> IF from = "a" THEN R({100, 318, 319, 320}) ELSE R({1, 30, 62, 63, 64, 65}),
              same |-> R(1..4) = 1])
\* Mostly for something that exists.
Ask == \E asker \in {"b", "c", "d", R({"z", "s", "a"})} :
         LET prev == {i \in 1..Len(hist) : hist[i].op \in {"own", "net"}}
         IN \E i \in {IF prev = {} \/ R(1..8) = 1 THEN 0 ELSE R(prev)} :
            LET k == IF i # 0 THEN <<hist[i].work, IF hist[i].op = "own" THEN "a" ELSE hist[i].from, hist[i].to, hist[i].round>>
                     ELSE <<R(Works), R({"a", "b", "z"}), R({"", "b", "c"}), R(Rounds)>>
            IN Log([op |-> "ask", from |-> asker, via |-> IF R(1..4) = 1 THEN R(Others) ELSE asker, key |-> k,
                 raw |-> IF R(1..15) = 1 THEN R({"", "x", "a__b", "____", "a__b__c__d", "a__b__c"}) ELSE "-", forge |-> F(1)])
\* For a message of the last burst, or one that the burst may have pushed out.
AskB == (\E i \in 1..Len(hist) : hist[i].op = "burst") /\
        \E p \in {"first", R({"second", "last", "mid"})} : Log([op |-> "askb", from |-> R(Others), pos |-> p])
Learn == R(1..6) = 1 /\ Log([op |-> "learn", node |-> "z"])
Next == Len(hist) < N /\ (Own \/ Get \/ Burst \/ Ask \/ AskB \/ Learn)
Emit == Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
