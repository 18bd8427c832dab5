--------------------------------- MODULE Locks -------------------------------
(* Calls into an engine as programs over its readers-writer locks: submitting requests, adding nodes, delivering       *)
(* network messages, answering questions, sending, querying, works that start and end.  A lock that a writer waits for  *)
(* is closed to new readers (as sync.RWMutex), so that reading twice or in different orders can block for ever.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs,   \* threads
          MaxCalls \* calls of a thread
LockNames == {"node", "work", "queue", "pre", "worker"}
R(l) == <<"r", l>>
RU(l) == <<"ru", l>>
W(l) == <<"w", l>>
WU(l) == <<"wu", l>>
Get(d) == <<"get", d>>     \* a use of shared data: begins
Put(d) == <<"put", d>>
End == <<"end", "">>
Rd(l, d) == <<R(l), Get(d), End, RU(l)>>
Wr(l, d) == <<W(l), Put(d), End, WU(l)>>
\* the next work is taken and started under the work lock
StartNext == <<W("work"), Put("workers"), End>> \o Wr("queue", "queue") \o Wr("pre", "pre") \o Wr("worker", "exec") \o <<WU("work")>>
Prog == [submit  |-> Rd("node", "nodes") \o <<R("work"), Get("workers"), End>> \o Wr("queue", "queue") \o <<RU("work")>> \o StartNext,
         nodes   |-> Wr("node", "nodes"),
         deliver |-> Rd("node", "nodes") \o <<R("work"), Get("workers"), End>> \o Wr("pre", "pre") \o <<RU("work")>> \o Rd("worker", "exec"),
         ask     |-> Rd("node", "nodes") \o Rd("node", "nodes"),
         send    |-> Rd("node", "nodes"),
         select  |-> Wr("worker", "exec") \o Rd("node", "nodes"),
         query   |-> Rd("work", "workers"),
         finish  |-> Rd("work", "workers") \o Wr("work", "workers") \o StartNext]
Calls == DOMAIN Prog

VARIABLES call,    \* Procs -> the call being made, or ""
          pc,      \* Procs -> next operation
          left,    \* Procs -> calls still to be made
          readers, \* LockNames -> set of readers
          writer,  \* LockNames -> the writer that holds or waits for the lock, or ""
          held,    \* LockNames -> the writer has the lock
          use      \* Procs -> <<kind, data>> being used, or End
vars == <<call, pc, left, readers, writer, held, use>>
Init == /\ call = [p \in Procs |-> ""] /\ pc = [p \in Procs |-> 1] /\ left = [p \in Procs |-> MaxCalls]
        /\ readers = [l \in LockNames |-> {}] /\ writer = [l \in LockNames |-> ""] /\ held = [l \in LockNames |-> FALSE]
        /\ use = [p \in Procs |-> End]
Begin(p, c) == /\ call[p] = "" /\ left[p] > 0
               /\ call' = [call EXCEPT ![p] = c] /\ pc' = [pc EXCEPT ![p] = 1] /\ left' = [left EXCEPT ![p] = @ - 1]
               /\ UNCHANGED <<readers, writer, held, use>>
Return(p) == /\ call[p] # "" /\ pc[p] > Len(Prog[call[p]])
             /\ call' = [call EXCEPT ![p] = ""] /\ pc' = [pc EXCEPT ![p] = 1] /\ UNCHANGED <<left, readers, writer, held, use>>
Op(p) == Prog[call[p]][pc[p]]
Busy(p) == call[p] # "" /\ pc[p] <= Len(Prog[call[p]])
Step(p) == pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<call, left>>
Read(p) == /\ Busy(p) /\ Op(p)[1] = "r" /\ writer[Op(p)[2]] = ""
           /\ readers' = [readers EXCEPT ![Op(p)[2]] = @ \cup {p}] /\ Step(p) /\ UNCHANGED <<writer, held, use>>
ReadDone(p) == /\ Busy(p) /\ Op(p)[1] = "ru"
               /\ readers' = [readers EXCEPT ![Op(p)[2]] = @ \ {p}] /\ Step(p) /\ UNCHANGED <<writer, held, use>>
Want(p) == /\ Busy(p) /\ Op(p)[1] = "w" /\ writer[Op(p)[2]] = ""
           /\ writer' = [writer EXCEPT ![Op(p)[2]] = p] /\ UNCHANGED <<call, pc, left, readers, held, use>>
Write(p) == /\ Busy(p) /\ Op(p)[1] = "w" /\ writer[Op(p)[2]] = p /\ ~held[Op(p)[2]] /\ readers[Op(p)[2]] = {}
            /\ held' = [held EXCEPT ![Op(p)[2]] = TRUE] /\ Step(p) /\ UNCHANGED <<readers, writer, use>>
WriteDone(p) == /\ Busy(p) /\ Op(p)[1] = "wu"
                /\ held' = [held EXCEPT ![Op(p)[2]] = FALSE] /\ writer' = [writer EXCEPT ![Op(p)[2]] = ""]
                /\ Step(p) /\ UNCHANGED <<readers, use>>
Use(p) == /\ Busy(p) /\ Op(p)[1] \in {"get", "put", "end"} /\ use' = [use EXCEPT ![p] = Op(p)] /\ Step(p) /\ UNCHANGED <<readers, writer, held>>
StepOf(p) == Read(p) \/ ReadDone(p) \/ Want(p) \/ Write(p) \/ WriteDone(p) \/ Use(p) \/ Return(p)
Next == \E p \in Procs : StepOf(p) \/ (\E c \in Calls : Begin(p, c))
Spec == Init /\ [][Next]_vars
\* Properties.  As every thread makes a bounded number of calls, threads that block each other are found as states in
\* which nobody can go on.
Done == \A p \in Procs : call[p] = "" /\ left[p] = 0
NoDeadlock == (\E p \in Procs : ENABLED StepOf(p)) \/ (\A p \in Procs : call[p] = "")
Exclusive == \A l \in LockNames : held[l] => readers[l] = {}
NoRace == \A p, q \in Procs : (p # q /\ use[p][1] = "put" /\ use[q][1] \in {"put", "get"}) => use[p][2] # use[q][2]
\* A thread never asks for a lock that it has.
Simple == \A p \in Procs : (Busy(p) /\ Op(p)[1] \in {"r", "w"}) => (p \notin readers[Op(p)[2]] /\ ~(held[Op(p)[2]] /\ writer[Op(p)[2]] = p))
\* Locks are taken in one order.
Rank == [work |-> 1, queue |-> 2, pre |-> 2, worker |-> 2, node |-> 2]
Ordered == \A p \in Procs : (Busy(p) /\ Op(p)[1] \in {"r", "w"}) =>
             \A l \in LockNames : (p \in readers[l] \/ (held[l] /\ writer[l] = p)) => Rank[l] < Rank[Op(p)[2]]
==============================================================================
