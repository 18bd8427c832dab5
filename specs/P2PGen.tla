--------------------------------- MODULE P2PGen ------------------------------
(* Histories of three nodes a, b, c and a peer r whose streams the check controls: listeners are registered, messages   *)
(* written by several threads, peers die and come back (one at a time), streams end, parts of messages arrive.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
VARIABLES hist, down, how, quiet, early
Nodes == {"a", "b", "c"}
Protos == {"tss", "ping"}
R(S) == RandomElement(S)
Sz(x) == R({0, 1, 3, 4, 5, 100, 1000, 4091, 4092, 4096, 5000, 16384, 65531, 65536, 70000, 300000, 1000000})
Small(x) == R({0, 1, 4, 100, 2000, 4092, 9000, 66000})
Pieces(x) == R({<<1, 2, 3, 5>>, <<2, 7>>, <<3, 100>>, <<4, 50, 1>>, <<1000>>, <<4096>>, <<4, 4092, 4, 4092>>, <<>>})
Init == hist = <<>> /\ down = "" /\ how = "" /\ quiet = {} /\ early \in SUBSET (Nodes \X Protos) /\ Cardinality(early) \in {2, 3, 4}
Log(x) == hist' = Append(hist, x)
U == UNCHANGED <<down, how, quiet, early>>
Listen == Log([op |-> "listen", node |-> R(Nodes \ {down}), proto |-> R(Protos)]) /\ U
Write == \E f \in {R((Nodes \ {down}) \ quiet)}, t \in {R(Nodes \cup {"r"})} : f # t /\
         Log([op |-> "write", from |-> f, to |-> IF down # "" /\ down # f /\ R(1..4) = 1 THEN down ELSE t, proto |-> R({"tss", "tss", "ping"}), size |-> Sz(1), k |-> R({1, 1, 2, 5}), th |-> R({"x", "y", "z"})]) /\ U
Big == R(1..12) = 1 /\ \E f \in {R((Nodes \ {down}) \ quiet)}, t \in {R(Nodes \cup {"r"})} : f # t /\
         Log([op |-> "write", from |-> f, to |-> t, proto |-> "tss", size |-> R({20000001, 20000001, 20000000, 6000000}), k |-> 1, th |-> R({"x", "y"})]) /\ U
Raw == down # "r" /\ Log([op |-> "raw", to |-> R(Nodes \ {down}), proto |-> R(Protos), size |-> Small(1), k |-> R({1, 2, 4}), pieces |-> Pieces(1), ms |-> R({0, 1, 3})]) /\ U
Junk == down # "r" /\ Log([op |-> "junk", to |-> R(Nodes \ {down}), proto |-> R(Protos), kind |-> R({"part", "head", "huge"})]) /\ U
Drop == down # "r" /\ Log([op |-> "drop", node |-> R(Nodes \ {down})]) /\ U
Settle == R(1..2) = 1 /\ Log([op |-> "settle"]) /\ U
Kill == /\ down = "" /\ \E x \in {R(Nodes \cup {"r"})} :
             IF x = "r" THEN Log([op |-> "rawdown"]) /\ down' = "r" /\ how' = "raw" /\ UNCHANGED quiet
             ELSE IF R(1..3) = 1 THEN Log([op |-> "stop", node |-> x]) /\ down' = x /\ how' = "stop" /\ UNCHANGED quiet
             ELSE Log([op |-> "kill", node |-> x]) /\ down' = x /\ how' = "kill" /\ quiet' = quiet \ {x}
        /\ UNCHANGED early
\* (A node that does not connect itself to the others does not write to them either.)
Back == /\ down # "" /\ down' = "" /\ how' = "" /\ UNCHANGED early
        /\ IF how = "raw" THEN Log([op |-> "rawup"]) /\ UNCHANGED quiet
           ELSE IF how = "stop" THEN Log([op |-> "cont", node |-> down]) /\ UNCHANGED quiet
           ELSE \E q \in {quiet = {} /\ R(1..3) = 1} :
                  /\ Log([op |-> "restart", node |-> down, quiet |-> q, early |-> R({<<"tss">>, <<"tss", "ping">>, <<>>, <<"ping">>})])
                  /\ quiet' = IF q THEN {down} ELSE quiet
Next == Len(hist) < N /\ (Listen \/ Write \/ Write \/ Write \/ Write \/ Write \/ Big \/ Raw \/ Raw \/ Junk \/ Drop \/ Settle \/ Kill \/ Back \/ Back)
Tag == {x[1] \o ":" \o x[2] : x \in early}
Emit == Len(hist) < N \/ PrintT(ToJson([cfg |-> [early |-> Tag], ops |-> hist]))
==============================================================================
