------------------------------ MODULE BlameMC ------------------------------
EXTENDS Blame, TLC, Json
CONSTANTS Works, Rounds, Parties, PartySets, N, Log_
VARIABLE hist
Init == BInit /\ hist = <<>>
Log(h) == hist' = IF Log_ THEN Append(hist, h) ELSE hist
More == IF Log_ THEN Len(hist) < N ELSE TRUE
Seqs(S) == IF S = {} THEN <<>> ELSE LET RECURSIVE f(_)
                                        f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x})
                                    IN f(S)
SendAny == More /\ \E w \in Works, r \in Rounds, p \in Parties : Send(w, r, p) /\ Log([op |-> "send", w |-> w, r |-> r, p |-> p])
BadAny == More /\ \E w \in Works, r \in Rounds, ps \in PartySets : Bad(w, r, ps) /\ Log([op |-> "bad", w |-> w, r |-> r, ps |-> Seqs(ps)])
PreAny == More /\ Log_ /\ \E ps \in PartySets : Pre(Seqs(ps)) /\ Log([op |-> "pre", ps |-> Seqs(ps)])
QueryAny == More /\ Log_ /\ \E w \in Works, r \in Rounds, ps \in PartySets :
              Log([op |-> "query", w |-> w, r |-> r, ps |-> Seqs(ps)]) /\ UNCHANGED <<sent, bad, pre>>
QueryPre == More /\ Log_ /\ Log([op |-> "querypre"]) /\ UNCHANGED <<sent, bad, pre>>
Next == SendAny \/ BadAny \/ PreAny \/ QueryAny \/ QueryPre
\* Independence of works and rounds: only records of this work and round matter.
Independent == \A w \in Works, r \in Rounds :
   Culprits(w, r, Parties) = {p \in Parties : <<w, r, p>> \notin {x \in sent : x[1] = w /\ x[2] = r}
                                           \/ <<w, r, p>> \in {x \in bad : x[1] = w /\ x[2] = r}}
Silent_ == \A w \in Works, r \in Rounds : ({x \in sent \cup bad : x[1] = w /\ x[2] = r} = {}) => Culprits(w, r, Parties) = Parties
Emit == ~Log_ \/ Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
