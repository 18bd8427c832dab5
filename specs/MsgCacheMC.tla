----------------------------- MODULE MsgCacheMC -----------------------------
(* Exhaustive exploration (Bulk = {1}, small Limit, N = 0) and generator of histories (N > 0).                      *)
EXTENDS MsgCache, TLC, Json
CONSTANTS Senders, Works, Types, Bulk, Filters, Adds, N
VARIABLES cnt, hist,
          lost, got      \* numbers dropped because their own sender exceeded the limit / handed over
mvars == <<store, cnt, hist, lost, got>>
Init == CInit /\ cnt = 0 /\ hist = <<>> /\ lost = {} /\ got = {}
Log(h) == hist' = IF N = 0 THEN hist ELSE Append(hist, h)
Room == IF N = 0 THEN cnt < Adds ELSE Len(hist) < N
All == UNION {{m.n : m \in {store[s][i] : i \in 1..Len(store[s])}} : s \in DOMAIN store}
AddAny == /\ Room
          /\ \E s \in Senders, w \in Works, t \in Types, k \in Bulk :
               LET ms == [i \in 1..k |-> [w |-> w, t |-> t, n |-> cnt + i - 1]] IN
               /\ Add(s, ms) /\ cnt' = cnt + k
               /\ lost' = IF N > 0 THEN lost
                          ELSE lost \cup ({m.n : m \in {(Of(s) \o ms)[i] : i \in 1..Len(Of(s) \o ms)}}
                                          \ {m.n : m \in {store'[s][i] : i \in 1..Len(store'[s])}})
               /\ Log([op |-> "add", from |-> s, w |-> w, t |-> t, k |-> k])
               /\ UNCHANGED got
PopAny == /\ N = 0 \/ Len(hist) < N
          /\ \E w \in Works, f \in Filters :
               /\ Pop(w, f) /\ UNCHANGED <<cnt, lost>>
               /\ got' = IF N > 0 THEN got
                         ELSE got \cup UNION {{m.n : m \in {Found(s, w, f)[i] : i \in 1..Len(Found(s, w, f))}} : s \in DOMAIN store}
               /\ Log([op |-> "pop", w |-> w, f |-> f])
GetAny == /\ N > 0 /\ Len(hist) < N
          /\ \E w \in Works : Log([op |-> "get", w |-> w]) /\ UNCHANGED <<store, cnt, lost, got>>
Next == AddAny \/ PopAny \/ GetAny
\* Nothing is lost, duplicated or handed over twice, except by the sender's own excess.
Conserved == N > 0 \/ (/\ 0..(cnt - 1) = All \cup lost \cup got
                       /\ All \cap (lost \cup got) = {} /\ lost \cap got = {})
Emit == N = 0 \/ Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
