----------------------------- MODULE WorkCache -----------------------------
(* The cache of protocol messages for re-sending (core/cache/work_message_cache.go, tools/circular_queue.go): per   *)
(* sender the last Size additions (5*Size for the node itself); a key finds its latest addition.                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Size, Me
VARIABLE kept      \* sender -> sequence of [key, n]
Of(s) == IF s \in DOMAIN kept THEN kept[s] ELSE <<>>
Room(s) == IF s = Me THEN 5 * Size ELSE Size
LastN(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
WInit == kept = <<>>
Add(s, key, n) == kept' = TLCEval([x \in DOMAIN kept \cup {s} |->
                     IF x = s THEN LastN(Append(Of(s), [key |-> key, n |-> n]), Room(s)) ELSE kept[x]])
Where(s, key) == {i \in 1..Len(Of(s)) : Of(s)[i].key = key}
Find(s, key) == IF Where(s, key) = {} THEN 0
                ELSE Of(s)[CHOOSE i \in Where(s, key) : \A j \in Where(s, key) : j <= i].n
Bounded == \A s \in DOMAIN kept : Len(kept[s]) <= Room(s)
=============================================================================
