----------------------------- MODULE QueueTrace -----------------------------
(* Sequential histories of the real request queue against Scheduler's queue. *)
EXTENDS TraceBase
VARIABLES queue, running, kicks
Cap == 2
S == INSTANCE Scheduler
TraceInit == TInit /\ S!SInit
Keep == UNCHANGED <<running, kicks>>
TAdd == /\ IsEv("add")
        /\ LET r == [id |-> Ev.id, cls |-> Ev.cls, inst |-> Ev.inst] IN
           IF Ev.ok THEN S!QAdd(r) ELSE S!QRefuse(r)
TPop == /\ IsEv("pop")
        /\ IF Ev.id = "" THEN queue = <<>> /\ UNCHANGED queue
           ELSE S!QPop /\ Head(queue).id = Ev.id /\ Head(queue).inst = Ev.inst
TSize == IsEv("size") /\ Ev.n = Len(queue) /\ UNCHANGED queue
TraceNext == (TAdd \/ TPop \/ TSize) /\ Consume /\ Keep /\ S!Sorted' /\ S!Fifo' /\ S!NoDup'
============================================================================
