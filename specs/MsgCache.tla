------------------------------ MODULE MsgCache ------------------------------
(* The cache for messages of works that have not started (core/cache/message_cache.go): per sender, the last Limit *)
(* messages in the order they arrived.  A message is [w |-> work, t |-> type, n |-> unique number].                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Limit
VARIABLE store          \* function: sender -> sequence of messages (senders without messages are left out)

Of(s) == IF s \in DOMAIN store THEN store[s] ELSE <<>>
LastN(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
Wanted(f) == CASE f = "all" -> {"upd", "req", "out", "rsp"} [] f = "upd" -> {"upd"} [] f = "sel" -> {"req", "out", "rsp"}
Match(m, w, f) == m.w = w /\ m.t \in Wanted(f)

CInit == store = <<>>
\* k messages in a row of the same sender
Add(s, ms) == store' = TLCEval([x \in DOMAIN store \cup {s} |-> IF x = s THEN LastN(Of(s) \o ms, Limit) ELSE store[x]])
\* What belongs to a work: per sender, in order.
Found(s, w, f) == SelectSeq(Of(s), LAMBDA m : Match(m, w, f))
Pop(w, f) == store' = TLCEval([x \in DOMAIN store |-> SelectSeq(store[x], LAMBDA m : ~Match(m, w, f))])

\* The result of a pop or get: every message found, once; the messages of one sender in their order.
Nums(q) == [i \in 1..Len(q) |-> q[i].n]
Elems(q) == {q[i] : i \in 1..Len(q)}
Result(res, w, f) ==
  LET found == TLCEval([s \in DOMAIN store |-> Nums(TLCEval(Found(s, w, f)))])
      rs == TLCEval(Elems(res))
      sets == TLCEval([s \in DOMAIN store |-> Elems(found[s])])
  IN /\ Len(res) = Cardinality(rs)
     /\ rs = UNION {sets[s] : s \in DOMAIN store}
     /\ \A s \in DOMAIN store : SelectSeq(res, LAMBDA n : n \in sets[s]) = found[s]
Bounded == \A s \in DOMAIN store : Len(store[s]) <= Limit
=============================================================================
