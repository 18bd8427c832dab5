------------------------------ MODULE QueueGen ------------------------------
(* All histories of the request queue by itself, up to renaming of the ids. *)
EXTENDS Scheduler, TLC, Json
CONSTANTS MaxIds, N, Types
VARIABLES typ, hist, n
Id(i) == "r" \o ToString(i)
ClsOf(t) == IF t \in {"eckeygen", "edkeygen"} THEN "keygen" ELSE "sign"
Init == QInit /\ running = {} /\ kicks = 0 /\ typ = <<>> /\ hist = <<>> /\ n = 0
Add(i, t) ==
  /\ Len(hist) < N /\ i <= Len(typ) + 1 /\ i <= MaxIds
  /\ i <= Len(typ) => t = typ[i]
  /\ typ' = IF i <= Len(typ) THEN typ ELSE Append(typ, t)
  /\ n' = n + 1
  /\ LET r == [id |-> Id(i), cls |-> ClsOf(t), inst |-> n] IN QAdd(r) \/ QRefuse(r)
  /\ hist' = Append(hist, [op |-> "add", id |-> Id(i), t |-> t])
  /\ UNCHANGED <<running, kicks>>
Pop == /\ Len(hist) < N /\ (QPop \/ (queue = <<>> /\ UNCHANGED queue))
       /\ hist' = Append(hist, [op |-> "pop", id |-> "", t |-> ""])
       /\ UNCHANGED <<typ, running, kicks, n>>
Next == Pop \/ \E i \in 1..MaxIds, t \in Types : Add(i, t)
Emit == Len(hist) < N \/ PrintT(ToJson(hist))
============================================================================
