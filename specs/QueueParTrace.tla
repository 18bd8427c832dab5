--------------------------- MODULE QueueParTrace ---------------------------
(* Concurrent histories of the real request queue: every call takes effect atomically, as in Scheduler, at some  *)
(* point between its call and its return.                                                                        *)
EXTENDS TraceBase
VARIABLES queue, running, kicks, pend, cnt
Cap == 2
S == INSTANCE Scheduler
Procs == 0..(Cfg.procs - 1)
Idle == [op |-> "none", id |-> "", cls |-> "", done |-> FALSE, ok |-> FALSE, res |-> ""]
TraceInit == TInit /\ S!SInit /\ pend = [p \in Procs |-> Idle] /\ cnt = 0
Keep == UNCHANGED <<running, kicks>>
Call == /\ IsEv("call") /\ Consume /\ UNCHANGED <<queue, cnt>>
        /\ pend[Ev.p].op = "none"
        /\ pend' = [pend EXCEPT ![Ev.p] = [Idle EXCEPT !.op = Ev.op, !.id = Ev.id, !.cls = Ev.cls]]
Lin(p) == /\ pend[p].op # "none" /\ ~pend[p].done /\ Silent
          /\ IF pend[p].op = "add"
             THEN LET r == [id |-> pend[p].id, cls |-> pend[p].cls, inst |-> cnt] IN
                  \/ S!QAdd(r) /\ cnt' = cnt + 1 /\ pend' = [pend EXCEPT ![p].done = TRUE, ![p].ok = TRUE]
                  \/ S!QRefuse(r) /\ UNCHANGED cnt /\ pend' = [pend EXCEPT ![p].done = TRUE, ![p].ok = FALSE]
             ELSE \/ S!QPop /\ UNCHANGED cnt
                     /\ pend' = [pend EXCEPT ![p].done = TRUE, ![p].ok = TRUE, ![p].res = Head(queue).id]
                  \/ queue = <<>> /\ UNCHANGED <<queue, cnt>> /\ pend' = [pend EXCEPT ![p].done = TRUE]
Ret == /\ IsEv("ret") /\ Consume /\ UNCHANGED <<queue, cnt>>
       /\ pend[Ev.p].done /\ pend[Ev.p].ok = Ev.ok /\ pend[Ev.p].res = Ev.id
       /\ pend' = [pend EXCEPT ![Ev.p] = Idle]
Size == IsEv("size") /\ Consume /\ Ev.n = Len(queue) /\ UNCHANGED <<queue, cnt, pend>>
TraceNext == (Call \/ Ret \/ Size \/ \E p \in Procs : Lin(p)) /\ Keep
============================================================================
