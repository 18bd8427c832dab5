------------------------------- MODULE SelGen -------------------------------
(* Scripts for one selection: what reaches the node before it starts, while it waits, and close to its time limit.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Leaders
VARIABLES hist, cfg, ph
R(S) == RandomElement(S)
\* Presigns o1-0 .. o5-0 and their owners; o4 is used.
Owns4 == {<<>>, <<<<"o1-0", <<"a", "b", "c">>>>>>,
          <<<<"o1-0", <<"a", "b", "c">>>>, <<"o2-0", <<"a", "b", "c">>>>, <<"o3-0", <<"a", "c", "d">>>>, <<"o4-0", <<"a", "b", "c">>>>>>,
          <<<<"o1-0", <<"a", "b", "c", "d">>>>, <<"o2-0", <<"a", "b", "d">>>>, <<"o3-0", <<"a", "b", "d">>>>>>,
          <<<<"o1-0", <<"a", "b", "c">>>>, <<"o2-0", <<"a", "b", "d">>>>, <<"o3-0", <<"b", "c", "d">>>>>>,
          <<<<"o1-0", <<"a", "b", "c">>>>, <<"o2-0", <<"a", "b", "d">>>>, <<"o3-0", <<"a", "c", "d">>>>>>}
Has4(o) == \E i \in 1..Len(o) : o[i][1] = "o4-0"
Init == /\ \E k \in {"keygen", "ecsign", "ecsign", "edsign"}, n \in {3, 4, 5}, me \in (IF Leaders THEN {"a"} ELSE {"b"}),
              b \in {1, 2}, o \in Owns4, u \in {<<>>, <<"o4-0">>, <<"o1-0">>} :
             /\ (me = "a" => \A i \in 1..Len(o) : o[i][2][1] = "a")  \* a node has no presigns of other parties
             /\ (k # "ecsign" => o = <<>>) /\ (n = 3 => o = <<>>)
             /\ (o = <<>> => u = <<>>) /\ (u = <<"o4-0">> => Has4(o))
             /\ cfg = [kind |-> k, n |-> n, t |-> (((n + 1) * 2) \div 3) - 1, batch |-> IF k = "keygen" THEN 1 ELSE b, leader |-> "a", me |-> me, owned |-> o, used |-> u]
        /\ hist = <<>> /\ ph = "pre"
Names == {"a", "b", "c", "d", "e"}
Party == R(IF cfg.n = 3 THEN {"a", "b", "c"} ELSE IF cfg.n = 4 THEN {"a", "b", "c", "d"} ELSE Names)
Room == Len(hist) < N
Log(x) == hist' = Append(hist, x) /\ UNCHANGED cfg
Resp == /\ Room /\ \E from \in {"p1", "p2", "p3", "x"}, ans \in {"yes", "yes2", "yes3", R({"no", "odd", "none"})} :
             Log([op |-> "resp", from |-> IF from = "x" THEN R({"s", "-", "z", "a"}) ELSE Party,
                  ans |-> IF ans \in {"yes2", "yes3"} THEN "yes" ELSE ans])
        /\ UNCHANGED ph
Req == Room /\ R(1..3) = 1 /\ Log([op |-> "req", from |-> R({"a", "b", "c", "s"})]) /\ UNCHANGED ph
\* Lists of parties: proper ones, and with a repetition, a stranger, too few or this node missing.
Good == IF cfg.kind = "keygen" THEN (IF cfg.n = 3 THEN <<"a", "b", "c">> ELSE IF cfg.n = 4 THEN <<"c", "a", "d", "b">> ELSE <<"a", "b", "c", "d", "e">>)
        ELSE IF cfg.n = 3 THEN <<"b", "a">>
        ELSE IF cfg.n = 4 THEN R({<<"a", "b", "c">>, <<"b", "d", "a">>, <<"a", "b", "c", "d">>, <<"c", "b", "d">>})
        ELSE R({<<"a", "b", "c", "d">>, <<"e", "b", "a", "c">>, <<"a", "b", "c", "d", "e">>})
Without == IF cfg.n = 3 THEN <<"a", "c">> ELSE IF cfg.n = 4 THEN <<"a", "c", "d">> ELSE <<"a", "c", "d", "e">>
Bad(x) == R({<<"a", "b">>, <<"b">>, <<>>, <<"a", "b", "b">>, <<"a", "b", "a", "b">>, <<"a", "b", "c", "c">>, <<"a", "b", "z">>, <<"a", "b", "c", "s">>, <<"a", "b", "c", "-">>,
          <<"a", "a", "a">>, <<"a", "c", "c", "c">>, <<"z", "a", "c", "d">>, <<"a", "b", "c", "d", "d">>, <<"a", "b", "c", "d", "e", "a">>, <<"a", "c">>})
Pids == LET k == R(1..10) IN IF k <= 5 THEN Good ELSE IF k = 6 THEN Without ELSE Bad(k)
Ps == IF cfg.kind # "ecsign" \/ cfg.owned = <<>> THEN R({<<>>, <<>>, <<>>, <<"q-0">>, <<"o1-0", "o2-0">>})
      ELSE IF cfg.batch = 1 THEN R({<<>>, <<"o1-0">>, <<"o2-0">>, <<"o3-0">>, <<"o4-0">>, <<"q-0">>, <<"o1-0", "o2-0">>, <<"">>})
      ELSE R({<<>>, <<"o1-0", "o2-0">>, <<"o2-0", "o1-0">>, <<"o1-0", "o1-0">>, <<"o2-0", "o3-0">>, <<"o1-0">>, <<"o2-0", "o4-0">>, <<"o1-0", "q-0">>, <<"o1-0", "o2-0", "o3-0">>})
Ann == /\ Room /\ (cfg.me # "a" \/ R(1..6) = 1)
       /\ \E from \in {"a", "a2", "a3", "x"} :
            Log([op |-> "ann", from |-> IF from = "x" THEN R({"b", "c", "d", "s", "z", "-"}) ELSE "a",
                 ok |-> R(1..7) # 1, pids |-> Pids, ps |-> Ps, nil |-> R(1..12) = 1])
       /\ UNCHANGED ph
Start == Room /\ ph = "pre" /\ Len(hist) >= R(0..3) /\ Log([op |-> "start"]) /\ ph' = "run"
Wait == Room /\ ph = "run" /\ R(1..4) = 1 /\ Log([op |-> "wait"]) /\ ph' = "late"
Next == Resp \/ Req \/ Ann \/ Start \/ Wait
Emit == Len(hist) < N \/ ph = "pre" \/ PrintT(ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================
