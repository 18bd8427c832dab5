-------------------------------- MODULE SingleGen ----------------------------
(* Histories of requests to the service of a single node: bursts of requests from several threads, in phases.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES hist, tr
R(S) == RandomElement(S)
Type(x) == R({"ecdsa", "ecdsa", "ecdsa", "eddsa", "eddsa", "eddsa", "bitcoin", ""})
KeyType(x) == R({"ecdsa", "eddsa", "ecdsa", "eddsa", "rsa", ""})
\* kinds of messages: a hash, a hash with leading zeros, a hash that an other message has too; and others that ecdsa cannot sign
Msg(x) == R({"hash", "hash", "hash", "hash", "zeros", "same", "ones"})
Odd(x) == R({"short", "long", "empty", "one"})
Msgs(x) == LET k == R(1..40) IN IF k = 1 THEN <<>> ELSE IF k = 2 THEN <<"nil">> ELSE IF k = 3 THEN <<Msg(1), "nil">> ELSE IF k = 4 THEN <<Odd(1)>> ELSE IF k = 5 THEN <<Msg(1), Odd(2)>>
           ELSE IF k < 15 THEN <<Msg(1)>> ELSE IF k < 25 THEN <<Msg(1), Msg(2)>> ELSE IF k < 36 THEN <<Msg(1), Msg(2), Msg(3)>> ELSE [i \in 1..R({5, 9, 17}) |-> Msg(i)]
Init == hist = <<>> /\ tr \in {"direct", "rpc"}
Log(x) == hist' = Append(hist, x) /\ UNCHANGED tr
Gen(x) == [op |-> "keygen", type |-> KeyType(1), msgs |-> <<>>, th |-> R({"x", "y", "z"})]
Sign(x) == [op |-> "sign", type |-> Type(1), msgs |-> Msgs(1), th |-> R({"x", "y", "z"})]
\* Most histories begin with the two keys.
First == hist = <<>> /\ R(1..4) > 1 /\ hist' = <<[op |-> "keygen", type |-> "ecdsa", msgs |-> <<>>, th |-> "x"], [op |-> "keygen", type |-> "eddsa", msgs |-> <<>>, th |-> "y"], [op |-> "settle"]>> /\ UNCHANGED tr
Next == Len(hist) < N /\ (IF hist = <<>> /\ R(1..5) > 1 THEN First ELSE
        CASE R(1..14) = 1 -> Log([op |-> "settle"]) [] R(1..10) = 1 -> Log([op |-> "sleep", ms |-> R({1, 50, 1000, 2900, 3000, 3100})]) [] R(1..9) = 1 -> Log(Gen(1)) [] OTHER -> Log(Sign(1)))
Emit == Len(hist) < N \/ PrintT(ToJson([cfg |-> [transport |-> tr], ops |-> hist]))
==============================================================================
