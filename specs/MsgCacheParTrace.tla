-------------------------- MODULE MsgCacheParTrace --------------------------
(* Concurrent calls: each takes effect at some point between its call and its return. *)
EXTENDS TraceBase
VARIABLES store, pend
Limit == 64
C == INSTANCE MsgCache
Procs == 0..(Cfg.procs - 1)
Idle == [op |-> "none"]
TraceInit == TInit /\ C!CInit /\ pend = [p \in Procs |-> Idle]
Call == /\ IsEv("call") /\ pend[Ev.p].op = "none" /\ Consume /\ UNCHANGED store
        /\ pend' = [pend EXCEPT ![Ev.p] = [op |-> Ev.op, ev |-> Ev, done |-> FALSE, lin |-> <<>>]]
\* Only linearize when needed: at the return of some call (keeps the search small without losing behaviours,
\* because a call that has not returned may take effect at any time before its return).
RetOf(p) == CHOOSE i \in l..Len(Evs) : Evs[i].e = "ret" /\ Evs[i].p = p /\ \A j \in l..(i - 1) : ~(Evs[j].e = "ret" /\ Evs[j].p = p)
Lin(p) == /\ IsEv("ret") /\ pend[p].op # "none" /\ ~pend[p].done /\ Silent
          /\ IF pend[p].op = "add"
             THEN C!Add(pend[p].ev.from, << [w |-> pend[p].ev.w, t |-> pend[p].ev.t, n |-> pend[p].ev.n] >>)
             ELSE C!Result(Evs[RetOf(p)].res, pend[p].ev.w, "all") /\ C!Pop(pend[p].ev.w, "all")
          /\ pend' = [pend EXCEPT ![p].done = TRUE]
Ret == IsEv("ret") /\ pend[Ev.p].op # "none" /\ pend[Ev.p].done /\ Consume /\ pend' = [pend EXCEPT ![Ev.p] = Idle] /\ UNCHANGED store
TraceNext == Call \/ Ret \/ \E p \in Procs : Lin(p)
=============================================================================
