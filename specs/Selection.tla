----------------------------- MODULE Selection -----------------------------
(* Rules of the selection of signers (worker/prework_selection.go), shared by the design model (SelectionMC) and by  *)
(* the validation of recorded selections (SelectionTrace).                                                          *)
(* w: the work, [kind |-> "keygen" | "ecsign" | "edsign", all |-> parties, t |-> threshold, batch, leader].          *)
(* owned: the presigns stored and not used, a set of <<id, owners>>.                                                *)
EXTENDS Integers, Sequences, FiniteSets
Elems(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(Elems(q)) = Len(q)
OwnersOf(owned, id) == {x[2] : x \in {y \in owned : y[1] = id}}
Ids(owned) == {x[1] : x \in owned}

\* What a leader may announce as success, given the parties that said that they are available.
Composition(w, owned, yes, pids, ps) ==
  LET S == Elems(pids) IN
  /\ Distinct(pids) /\ S \subseteq (yes \cap w.all) \cup {w.leader} /\ w.leader \in S
  /\ CASE w.kind = "keygen" -> S = w.all /\ ps = <<>>
       [] w.kind = "edsign" -> Cardinality(S) = w.t + 1 /\ ps = <<>>
       [] w.kind = "ecsign" ->
            IF ps = <<>> THEN Cardinality(S) = w.t + 1
            ELSE /\ Distinct(ps) /\ Len(ps) = w.batch
                 /\ Elems(ps) \subseteq Ids(owned) /\ \A i \in Elems(ps) : OwnersOf(owned, i) = {S}

\* The selection must not fail if these parties answered in time.
Enough(w, sure) == LET A == (sure \cap w.all) \cup {w.leader} IN
                   IF w.kind = "keygen" THEN A = w.all ELSE Cardinality(A) >= w.t + 1

\* A well-formed success announcement of the leader.
WellFormed(w, owned, pids, ps) ==
  /\ Distinct(pids) /\ Elems(pids) \subseteq w.all
  /\ IF w.kind = "keygen" THEN Elems(pids) = w.all ELSE Len(pids) >= w.t + 1
  /\ ps = <<>> \/ (Len(ps) = w.batch /\ Distinct(ps) /\ Elems(ps) \subseteq Ids(owned))
\* Outcome of member m for announcement a = [ok, pids, ps].
Outcome(w, owned, m, a) ==
  IF ~a.ok THEN "fail"
  ELSE IF m \in Elems(a.pids)
       THEN IF WellFormed(w, owned, a.pids, a.ps) THEN "join" ELSE "fail"
       \* Without this member in the set, only the parties matter.
       ELSE IF WellFormed(w, owned, a.pids, <<>>) THEN "excluded" ELSE "fail"
=============================================================================
