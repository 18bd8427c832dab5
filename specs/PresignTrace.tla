---------------------------- MODULE PresignTrace ----------------------------
(* Observed: additions, and presigns handed to a signing together with their status in the database at that moment. *)
EXTENDS TraceBase
VARIABLES offered,   \* <<id, owners>> given to the node
          handed     \* ids in use by a signing
TraceInit == TInit /\ offered = {} /\ handed = {}
Added == IsEv("add") /\ offered' = offered \cup {<<Ev.ids[i], Ev.pids>> : i \in 1..Len(Ev.ids)} /\ UNCHANGED handed
Handed == /\ IsEv("handed")
          /\ LET S == Range(Ev.ids) IN
             /\ Cardinality(S) = Len(Ev.ids)
             /\ S \cap handed = {}
             /\ \A i \in 1..Len(Ev.st) : Ev.st[i] = "used"
             /\ Len(Ev.st) = Len(Ev.ids)
             /\ S \subseteq {x[1] : x \in offered}
             \* a leader takes one presign for each message, all of the same owners, and signs with these
             /\ Ev.by = "get" => /\ Len(Ev.ids) \in {0, Ev.batch}
                                 /\ \A i \in S : <<i, Ev.pids>> \in offered
             /\ handed' = handed \cup S
          /\ UNCHANGED offered
Other == (IsEv("crash") \/ IsEv("step") \/ IsEv("refused")) /\ UNCHANGED <<offered, handed>>
TraceNext == (Added \/ Handed \/ Other) /\ Consume
=============================================================================
