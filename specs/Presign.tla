------------------------------ MODULE Presign ------------------------------
(* Use of presigns: the database rows, the manager's memory (core/components/available_presign_manager.go) and the  *)
(* processes that take presigns for a signing: leaders take them from memory, members are told which ones by a       *)
(* leader's announcement (worker/prework_selection.go).  Each of them marks the presigns in the database and hands   *)
(* them out only if that succeeded.  The node may crash at any point; the database may fail before or after its      *)
(* effect.                                                                                                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Ids, Procs
VARIABLES rows,      \* id -> "none" | "unused" | "used"
          mem,       \* ids that the manager may still hand out
          adding,    \* ids stored in the database, not yet in memory
          pc, hold,  \* per process: "idle" | "took" | "marked", and the presigns it is about to use
          handed     \* id -> number of signings that use it
pvars == <<rows, mem, adding, pc, hold, handed>>
PInit == rows = [i \in Ids |-> "none"] /\ mem = {} /\ adding = {} /\ pc = [p \in Procs |-> "idle"]
         /\ hold = [p \in Procs |-> {}] /\ handed = [i \in Ids |-> 0]
Store(S) == /\ S # {} /\ \A i \in S : rows[i] = "none"
            /\ rows' = [i \in Ids |-> IF i \in S THEN "unused" ELSE rows[i]]
            /\ adding' = adding \cup S /\ UNCHANGED <<mem, pc, hold, handed>>
Offer == adding # {} /\ mem' = mem \cup adding /\ adding' = {} /\ UNCHANGED <<rows, pc, hold, handed>>
Take(p, S) == /\ pc[p] = "idle" /\ S # {} /\ S \subseteq mem
              /\ mem' = mem \ S /\ pc' = [pc EXCEPT ![p] = "took"] /\ hold' = [hold EXCEPT ![p] = S]
              /\ UNCHANGED <<rows, adding, handed>>
Told(p, S) == /\ pc[p] = "idle" /\ S # {}
              /\ pc' = [pc EXCEPT ![p] = "took"] /\ hold' = [hold EXCEPT ![p] = S]
              /\ UNCHANGED <<rows, mem, adding, handed>>
Stop(p) == pc' = [pc EXCEPT ![p] = "idle"] /\ hold' = [hold EXCEPT ![p] = {}]
Mark(p) == /\ pc[p] = "took"
           /\ IF \A i \in hold[p] : rows[i] = "unused"
              THEN rows' = [i \in Ids |-> IF i \in hold[p] THEN "used" ELSE rows[i]] /\ pc' = [pc EXCEPT ![p] = "marked"] /\ UNCHANGED hold
              ELSE Stop(p) /\ UNCHANGED rows
           /\ UNCHANGED <<mem, adding, handed>>
\* The database reports an error, before or after the change took effect.
MarkFails(p) == /\ pc[p] = "took" /\ Stop(p)
                /\ \/ UNCHANGED rows
                   \/ /\ \A i \in hold[p] : rows[i] = "unused"
                      /\ rows' = [i \in Ids |-> IF i \in hold[p] THEN "used" ELSE rows[i]]
                /\ UNCHANGED <<mem, adding, handed>>
CanHand(S) == \A i \in S : rows[i] = "used" /\ handed[i] = 0
Hand(p) == /\ pc[p] = "marked" /\ CanHand(hold[p])
           /\ handed' = [i \in Ids |-> IF i \in hold[p] THEN handed[i] + 1 ELSE handed[i]] /\ Stop(p)
           /\ UNCHANGED <<rows, mem, adding>>
Crash == /\ mem' = {i \in Ids : rows[i] = "unused"} /\ adding' = {} /\ pc' = [p \in Procs |-> "idle"] /\ hold' = [p \in Procs |-> {}]
         /\ UNCHANGED <<rows, handed>>
AtMostOnce == \A i \in Ids : handed[i] <= 1
MarkedFirst == \A i \in Ids : handed[i] > 0 => rows[i] = "used"
\* Hand is never refused: who marked a presign is the only one who did.
NeverStuck == \A p \in Procs : pc[p] = "marked" => CanHand(hold[p])
=============================================================================
