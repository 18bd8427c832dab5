----------------------------- MODULE DbStoreMC -----------------------------
(* Exhaustive exploration (N = 0) and generator of call histories (N > 0; the outcomes of the calls are left to the  *)
(* implementation).                                                                                                *)
EXTENDS DbStore, Json
CONSTANTS Vals, Types, Works, Sizes, Lists, Pk, MaxSteps, N
ListsSmall == {<<"w-0">>, <<"w-1", "w-0">>, <<"w-1-0", "w-0">>, <<"zz-0", "w-0">>}
ListsGen == {<<"w-0">>, <<"w-1", "w-0">>, <<"w-0", "w-1">>, <<"w-1-0", "w-0">>, <<"zz-0", "w-0">>, <<"w-0", "zz-0">>,
           <<"w-2", "w-10", "w-1">>, <<"o'k,%-0">>, <<"W-0", "w-0">>, <<"w-0", "w-0">>, <<>>,
           <<"w-11", "w-10", "w-9", "w-8", "w-7", "w-6", "w-5", "w-4", "w-3", "w-2", "w-1", "w-0">>, <<"w-1-1", "w-1">>}
VARIABLES steps, hist, markedOk   \* ids whose marking was confirmed
Init == DInit /\ steps = 0 /\ hist = <<>> /\ markedOk = {}
Log(h) == IF N = 0 THEN hist' = hist /\ steps' = steps + 1 /\ steps < MaxSteps
          ELSE hist' = Append(hist, h) /\ Len(hist) < N /\ steps' = steps
D == IF N = 0 THEN BOOLEAN ELSE {TRUE}
Seq1(n, v) == [i \in 1..n |-> v \o ToString(i)]
Same == UNCHANGED <<dvars, markedOk>>
Room == IF N = 0 THEN steps < MaxSteps ELSE Len(hist) < N
SavePreAny == Room /\ \E v \in Vals : Log([op |-> "savepre", v |-> v]) /\ UNCHANGED markedOk
              /\ IF N > 0 THEN UNCHANGED dvars ELSE \E ok \in D : SavePre(v, ok)
LoadPreAny == Room /\ N > 0 /\ Log([op |-> "loadpre"]) /\ Same
SaveKeyAny == Room /\ \E kind \in {"ec", "ed"}, kt \in Types, w \in Works, v \in Vals :
                Log([op |-> "savekey", kind |-> kind, kt |-> kind \o kt, w |-> w, v |-> v]) /\ UNCHANGED markedOk
                /\ IF N > 0 THEN UNCHANGED dvars ELSE \E ok \in D : SaveKey(kind, kind \o kt, w, v, ok)
LoadKeyAny == Room /\ N > 0 /\ \E kind \in {"ec", "ed"}, kt \in Types : Log([op |-> "loadkey", kind |-> kind, kt |-> kind \o kt]) /\ Same
SavePresignAny == Room /\ \E w \in Works, n \in Sizes, p \in {"p1", "p2"} :
                Log([op |-> "savepresign", w |-> w, n |-> n, pids |-> p]) /\ UNCHANGED markedOk
                /\ IF N > 0 THEN UNCHANGED dvars ELSE \E ok \in D : SavePresign(w, p, Seq1(n, w), ok)
AvailAny == Room /\ N > 0 /\ Log([op |-> "avail"]) /\ Same
LoadPresignAny == Room /\ N > 0 /\ \E ids \in Lists : Log([op |-> "loadpresign", ids |-> ids]) /\ Same
StatusAny == Room /\ N > 0 /\ \E ids \in Lists : Log([op |-> "status", ids |-> ids]) /\ Same
MarkAny == Room /\ \E ids \in Lists : Log([op |-> "mark", ids |-> ids])
                /\ IF N > 0 THEN Same ELSE \E ok \in D : Mark(ids, ok) /\ markedOk' = (IF ok THEN markedOk \cup Elems(ids) ELSE markedOk)
SavePeersAny == Room /\ \E a \in Pk, b \in Pk, t \in {"secp256k1", "ed25519"} :
                Log([op |-> "savepeers", ps |-> IF a = b THEN <<a>> ELSE <<a, b>>, t |-> t]) /\ UNCHANGED markedOk
                /\ IF N > 0 THEN UNCHANGED dvars ELSE \E ok \in D : SavePeers(IF a = b THEN <<<<a, "addr", t>>>> ELSE <<<<a, "addr", t>>, <<b, "addr", t>>>>, ok)
LoadPeersAny == Room /\ N > 0 /\ Log([op |-> "loadpeers"]) /\ Same
Next == SavePreAny \/ LoadPreAny \/ SaveKeyAny \/ LoadKeyAny \/ SavePresignAny \/ AvailAny \/ LoadPresignAny \/ StatusAny
        \/ MarkAny \/ SavePeersAny \/ LoadPeersAny
\* What was confirmed as marked never becomes available again, and nothing is available that was not stored.
MarkedStays == markedOk \subseteq {x \in DOMAIN presigns : presigns[x].used}
OneKey == \A k \in keys, m \in keys : (k.kt = m.kt /\ k.w = m.w) => k = m
Emit == N = 0 \/ Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
