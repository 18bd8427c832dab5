-------------------------------- MODULE HeartGen -----------------------------
(* Histories of calls to one node (Solo) and to all nodes of a network: keys that are right and wrong, the host's state,    *)
(* requests of all kinds, alone and at the same time.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Solo
VARIABLES hist, n, set, gens, tr, slow, ec   \* slow: something that can take the time limits has been done
R(S) == RandomElement(S)
Bad(x) == R({"badhex", "cut", "changed", "tiny", "empty", "badlen", "nokey", "badtype", "wrongtype"})
KeyType(x) == R({"ecdsa", "eddsa", "eddsa"})
AnyType(x) == R({"ecdsa", "eddsa", "rsa", "", "ECDSA"})
Msgs(x) == LET k == R(1..10) IN IF k < 5 THEN <<"hash">> ELSE IF k < 8 THEN <<"hash", "hash">> ELSE IF k = 8 THEN <<"hash", "same">> ELSE <<"hash", "hash", "hash", "hash">>
OddMsgs(x) == R({<<>>, <<"nil">>, <<"hash", "nil">>, <<"empty">>, <<"hash", "empty">>, <<"hash">>})
BadKeys(x) == R({"badtype", "badkey", "none", "notme", "nokey"})
G == [op |-> "go"]
S == [op |-> "settle"]
SetKey(h, kind, th) == [op |-> "setkey", h |-> h, kind |-> kind, th |-> th]
Ready(h, v, th) == [op |-> "ready", h |-> h, val |-> v, th |-> th]
Keygen(h, ty, keys, must, th) == [op |-> "keygen", h |-> h, type |-> ty, keys |-> keys, must |-> must, th |-> th]
Keysign(h, ty, ms, keys, must, dup, th) == [op |-> "keysign", h |-> h, type |-> ty, msgs |-> ms, keys |-> keys, must |-> must, dup |-> dup, th |-> th]
Th(x) == R({"x", "y", "z"})
Add(s) == hist' = hist \o s
H(x) == R({"h0", "h1"} \cup (IF n = 3 THEN {"h2"} ELSE {}))

\* One node by itself: it generates keys with itself only, which fails at once.
SoloReq(x) == LET k == R(1..12) IN
  IF k < 7 THEN Keygen("h0", KeyType(1), "me", FALSE, Th(1)) ELSE IF k = 7 THEN Keygen("h0", AnyType(1), "me", FALSE, Th(1)) ELSE IF k = 8 THEN Keygen("h0", KeyType(1), BadKeys(1), FALSE, Th(1))
  ELSE IF k < 11 THEN Keysign("h0", AnyType(1), Msgs(1), "me", FALSE, FALSE, Th(1)) ELSE Keysign("h0", KeyType(1), OddMsgs(1), "me", FALSE, FALSE, Th(1))
SoloNext ==
  \/ Add(<<SoloReq(1)>>) /\ UNCHANGED <<set>>
  \/ Add(<<SoloReq(1), SoloReq(2)>>) /\ UNCHANGED <<set>>
  \/ R(1..3) = 1 /\ Add(<<G>>) /\ UNCHANGED <<set>>
  \/ R(1..3) = 1 /\ Add(<<S>>) /\ UNCHANGED <<set>>
  \/ Add(<<Ready("h0", R({TRUE, TRUE, FALSE}), Th(1))>>) /\ UNCHANGED set
  \/ Add(<<SetKey("h0", Bad(1), Th(1))>>) /\ UNCHANGED set
  \/ Add(<<G, SetKey("h0", R({"busy", "badpeer"}), Th(1)), SoloReq(1), G>>) /\ UNCHANGED set
  \/ R(1..2) = 1 /\ Add(<<G, SetKey("h0", "good", Th(1))>> \o R({<<>>, <<Ready("h0", TRUE, Th(1))>>, <<Ready("h0", TRUE, "y"), SoloReq(1), SoloReq(2)>>, <<SetKey("h0", "good", "y")>>}) \o <<G>>) /\ set' = TRUE
  \/ set /\ Add(<<SetKey("h0", R({"other", "other", "good"}), Th(1))>>) /\ UNCHANGED set

NetType(x) == IF ec = 1 THEN KeyType(1) ELSE "eddsa"
\* A network: it starts, generates keys, and signs.
Start(y) == LET a == R({<<>>, <<>>, <<Ready("h0", TRUE, "x"), SetKey("h0", Bad(1), "x"), Keygen("h0", NetType(1), "all", FALSE, "x"), G>>,
                     <<SetKey("h1", "busy", "x"), Ready("h1", TRUE, "y"), Keygen("h1", NetType(1), "all", FALSE, "z"), G, SetKey("h1", Bad(1), "x"), G>>,
                     <<SetKey("h0", "badpeer", "x"), G, SetKey("h0", Bad(2), "x"), G>>})
             b == R({<<Ready("all", TRUE, "each"), SetKey("all", "good", "each")>>, <<SetKey("all", "good", "each"), Ready("all", TRUE, "each")>>,
                     <<SetKey("all", "good", "each"), G, Ready("h0", TRUE, "each"), G, Ready("all", TRUE, "each")>>, <<Ready("h0", TRUE, "x"), G, SetKey("all", "good", "each"), Ready("all", TRUE, "each")>>})
         IN a \o b \o <<S>>
Gen == \E ty \in {NetType(1)} : ty \notin gens /\ gens' = gens \cup {ty} /\ Add(<<Keygen("all", ty, "all", TRUE, "each"), S>>) /\ UNCHANGED set
GenBoth == gens = {} /\ ec = 1 /\ R(1..3) = 1 /\ gens' = {"ecdsa", "eddsa"} /\ Add(<<Keygen("all", "eddsa", "all", TRUE, "each"), Keygen("all", "ecdsa", "all", TRUE, "each"), S>>) /\ UNCHANGED set
Ty(x) == IF gens = {} THEN NetType(1) ELSE R(gens)
One(must, th) == Keysign("all", Ty(1), Msgs(1), "all", must, FALSE, th)
\* one or two signings that nothing disturbs
SignOk == gens # {} /\ Add(R({<<One(TRUE, "each")>>, <<One(TRUE, "each"), One(TRUE, "each")>>}) \o <<S>>) /\ UNCHANGED <<set, gens>>
\* many at once
Many == gens # {} /\ Add([i \in 1..R({3, 5, 8}) |-> One(FALSE, "each")] \o <<S>>) /\ UNCHANGED <<set, gens>>
Threads == gens # {} /\ Add([i \in 1..R({2, 4}) |-> [One(FALSE, "t") EXCEPT !.th = R({"x", "y", "each"})]] \o <<S>>) /\ UNCHANGED <<set, gens>>
\* a request once more while it may still be running
Dup == gens # {} /\ LET o == One(FALSE, "each") IN Add(<<o, [o EXCEPT !.dup = TRUE, !.h = H(1), !.th = Th(1)], S>>) /\ UNCHANGED <<set, gens>>
Refused == /\ Add(R({<<Keygen(H(1), R({"rsa", ""}), "stranger", FALSE, Th(1))>>, <<Keysign(H(1), Ty(1), OddMsgs(1), "stranger", FALSE, FALSE, Th(1))>>, <<Keysign("all", R({"rsa", ""}), Msgs(1), "stranger", FALSE, FALSE, Th(1))>>,
                     <<Keysign("all", R({"ecdsa", "eddsa"} \ (IF Cardinality(gens) = 1 THEN gens ELSE {})), OddMsgs(1), "all", FALSE, FALSE, Th(1))>>, <<Keysign(H(1), Ty(1), Msgs(1), BadKeys(1), FALSE, FALSE, Th(1))>>,
                     <<Keygen("h0", NetType(1), BadKeys(1), FALSE, Th(1))>>, <<SetKey(H(1), R({"other", "good", Bad(1)}), Th(1))>>}))
           /\ UNCHANGED <<set, gens>>
NotReady == gens # {} /\ \E h \in {H(1)} : Add(<<S, Ready(h, FALSE, "x"), G, Keysign(h, Ty(1), Msgs(1), "all", FALSE, FALSE, "x"), Keygen(h, Ty(1), "all", FALSE, "y"), G, Ready(h, TRUE, "x"), S>>) /\ UNCHANGED <<set, gens>>
\* the host of a node becomes busy while a work is under way
Flip == gens # {} /\ \E h \in {H(1)} : Add(<<One(FALSE, "each"), Ready(h, FALSE, "y"), G, S, Ready(h, TRUE, "x"), G>>) /\ UNCHANGED <<set, gens>>
\* not all nodes are asked: enough of them, or not (which takes the time limits)
Part == gens # {} /\ Add(<<[One(FALSE, "x") EXCEPT !.h = H(1)], S>>) /\ UNCHANGED <<set, gens>>
NetNext == IF hist = <<>> THEN Add(Start(n)) /\ set' = TRUE /\ UNCHANGED <<gens, slow>>
           ELSE ((Gen \/ Gen \/ GenBoth \/ SignOk \/ SignOk \/ Many \/ Refused \/ Refused \/ NotReady \/ Flip) /\ UNCHANGED slow) \/ (slow = FALSE /\ R(1..2) = 1 /\ slow' = TRUE /\ (Threads \/ Dup \/ Part))
Init == hist = <<>> /\ ec \in 1..4 /\ n \in (IF Solo THEN {1} ELSE {2, 3}) /\ set = FALSE /\ slow = FALSE /\ gens = {} /\ tr \in {"direct", "rpc"}
Next == Len(hist) < N /\ (IF Solo THEN SoloNext /\ UNCHANGED <<gens, slow>> ELSE NetNext) /\ UNCHANGED <<n, tr, ec>>
Emit == Len(hist) < N \/ PrintT(ToJson([cfg |-> [transport |-> tr, n |-> n], ops |-> hist]))
==============================================================================
