-------------------------------- MODULE P2PTrace -----------------------------
(* Messages between real nodes.  Events: up / down [node] (down: also while a process is stopped), listen [node, proto],  *)
(* send [id, cls, from, to, proto, big] (before the call; cls: messages with the same contents have the same class),      *)
(* wrote [id, ok] (the call has returned), recv [node, proto, from, cls] (a listener is called), settle, end.              *)
(* Cfg.sure: the machine ran everything in time, so that nodes noticed broken connections before messages were sent.       *)
EXTENDS TraceBase
VARIABLES up, lis, fly, open
vars == <<up, lis, fly, open>>
\* fly: messages that may still arrive: [id, cls, from, to, proto, must]; open: calls that have not returned: [id, sure, to, from].
TraceInit == TInit /\ up = {} /\ lis = {} /\ fly = {} /\ open = {}
Up == IsEv("up") /\ up' = up \cup {Ev.node} /\ UNCHANGED <<lis, fly, open>>
Down == /\ IsEv("down") /\ up' = up \ {Ev.node} /\ lis' = {x \in lis : x[1] # Ev.node}
        /\ fly' = {[f EXCEPT !.must = @ /\ f.to # Ev.node /\ f.from # Ev.node] : f \in fly}
        /\ open' = {[o EXCEPT !.sure = @ /\ o.to # Ev.node /\ o.from # Ev.node] : o \in open}
Listen == IsEv("listen") /\ lis' = lis \cup {<<Ev.node, Ev.proto>>} /\ UNCHANGED <<up, fly, open>>
Quiet == IsEv("quiet") /\ UNCHANGED vars
Send == LET sure == {Ev.from, Ev.to} \subseteq up /\ ~Ev.big /\ Cfg.sure IN
        /\ IsEv("send") /\ UNCHANGED <<up, lis>>
        /\ fly' = fly \cup {[id |-> Ev.id, cls |-> Ev.cls, from |-> Ev.from, to |-> Ev.to, proto |-> Ev.proto, must |-> sure /\ <<Ev.to, Ev.proto>> \in lis]}
        /\ open' = open \cup {[id |-> Ev.id, sure |-> sure, to |-> Ev.to, from |-> Ev.from]}
\* Writing to a peer that is available succeeds.
Wrote == /\ IsEv("wrote") /\ \E o \in open : o.id = Ev.id /\ (Ev.ok \/ ~o.sure) /\ open' = open \ {o}
         /\ UNCHANGED <<up, lis, fly>>
\* Every message arrives once at most, as it was sent, where it was sent to, from the one who sent it.
Can(f) == f.cls = Ev.cls /\ f.to = Ev.node /\ f.from = Ev.from /\ f.proto = Ev.proto
\* (Of messages with the same contents one that must arrive is taken first, as the others need not.)
Recv == /\ IsEv("recv") /\ UNCHANGED <<up, lis, open>>
        /\ LET C == {f \in fly : Can(f)} M == {f \in C : f.must} IN
           \E f \in (IF M # {} THEN {CHOOSE x \in M : TRUE} ELSE IF C # {} THEN {CHOOSE x \in C : TRUE} ELSE {}) : fly' = fly \ {f}
Settle == IsEv("settle") /\ (\A f \in fly : ~f.must) /\ (\A o \in open : ~o.sure) /\ UNCHANGED vars
End == IsEv("end") /\ UNCHANGED vars
TraceNext == (Up \/ Down \/ Listen \/ Quiet \/ Send \/ Wrote \/ Recv \/ Settle \/ End) /\ Consume
==============================================================================
