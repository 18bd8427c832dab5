----------------------------- MODULE Scheduler -----------------------------
(* The engine's scheduling of works (core/engine.go, core/request_queue.go).                                    *)
(* State: the waiting requests (best first), the running works, and the calls to the dispatcher that are still   *)
(* to come (every submission and every end of a work is followed by one).                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Cap                          \* the most works that run at once

VARIABLES queue,     \* sequence of [id, cls, inst]: the waiting requests
          running,   \* set of ids
          kicks      \* number of dispatcher calls that are due

svars == <<queue, running, kicks>>

Prio(c) == IF c = "keygen" THEN 2 ELSE 1
Waiting == {queue[i].id : i \in 1..Len(queue)}

\* Priority insertion: behind everything of the same or a better class.
Insert(q, r) ==
  LET k == Cardinality({i \in 1..Len(q) : Prio(q[i].cls) >= Prio(r.cls)})
  IN SubSeq(q, 1, k) \o <<r>> \o SubSeq(q, k + 1, Len(q))

QInit == queue = <<>>

\* The queue by itself (AddWork, Pop).
QAdd(r)    == r.id \notin Waiting /\ queue' = Insert(queue, r)
QRefuse(r) == r.id \in Waiting /\ UNCHANGED queue
QPop       == queue # <<>> /\ queue' = Tail(queue)

SInit == QInit /\ running = {} /\ kicks = 0

\* A request is accepted unless its id waits or runs already.
Submit(r) ==
  IF r.id \in Waiting \cup running
  THEN UNCHANGED svars
  ELSE QAdd(r) /\ kicks' = kicks + 1 /\ UNCHANGED running

\* One dispatcher call: start the best waiting request if a slot is free.
Dispatch ==
  /\ kicks > 0
  /\ kicks' = kicks - 1
  /\ IF Cardinality(running) < Cap /\ queue # <<>>
     THEN queue' = Tail(queue) /\ running' = running \cup {Head(queue).id}
     ELSE UNCHANGED <<queue, running>>

\* A work ends, in whatever way, and frees its slot.
End(id) ==
  /\ id \in running
  /\ running' = running \ {id}
  /\ kicks' = kicks + 1
  /\ UNCHANGED queue

(* Properties of the design. *)
Sorted == \A i, j \in 1..Len(queue) : i < j => Prio(queue[i].cls) >= Prio(queue[j].cls)
Fifo   == \A i, j \in 1..Len(queue) : i < j /\ queue[i].cls = queue[j].cls => queue[i].inst < queue[j].inst
NoDup  == /\ \A i, j \in 1..Len(queue) : i # j => queue[i].id # queue[j].id
          /\ Waiting \cap running = {}
CapInv == Cardinality(running) <= Cap
\* Work-conserving: a free slot and a waiting request only coexist while a dispatcher call is due.
NoIdle == kicks = 0 => queue = <<>> \/ Cardinality(running) = Cap
============================================================================
