----------------------------- MODULE SchedTrace -----------------------------
(* Histories of a real engine against Scheduler.  In sequential histories ("seq") the engine comes to rest after *)
(* every step, so that starts must come exactly in Scheduler's order.  In concurrent histories ("par") starts and *)
(* ends are seen inside the real run of a work only, so that each observed start may be any waiting request, but  *)
(* never too many works run, none starts without being submitted or twice, and at the end everything has run.     *)
EXTENDS TraceBase
VARIABLES queue, running, kicks, cnt, subs, begun, finishing, dupl
Cap == 2
S == INSTANCE Scheduler
vars == <<queue, running, kicks, cnt, subs, begun, finishing, dupl>>
Seq_ == Cfg.mode = "seq"
TraceInit == /\ TInit /\ S!SInit /\ cnt = 0 /\ subs = {} /\ begun = {} /\ finishing = {} /\ dupl = FALSE
Req == [id |-> Ev.id, cls |-> Ev.cls, inst |-> cnt]

SubmitSeq == /\ IsEv("submit") /\ Seq_
             /\ dupl' = (Ev.id \in S!Waiting \cup running)
             /\ S!Submit(Req) /\ cnt' = cnt + 1 /\ Consume /\ UNCHANGED <<subs, begun, finishing>>
\* a fresh request is never refused; a second submission of the same id may be refused or ignored
SubRet == /\ IsEv("subret") /\ Seq_ /\ (Ev.ok \/ dupl) /\ Consume /\ UNCHANGED vars
SubmitPar == /\ IsEv("submit") /\ ~Seq_
             /\ subs' = subs \cup {Ev.id} /\ Consume /\ UNCHANGED <<queue, running, kicks, cnt, begun, finishing, dupl>>
\* A dispatcher call that starts a work is seen as "start"; one that does not start anything is silent.
StartSeq == /\ IsEv("start") /\ Seq_ /\ queue # <<>> /\ Head(queue).id = Ev.id
            /\ Cardinality(running) < Cap /\ S!Dispatch /\ Consume /\ UNCHANGED <<cnt, subs, begun, finishing, dupl>>
IdleKick == /\ More /\ Seq_ /\ kicks > 0 /\ (queue = <<>> \/ Cardinality(running) = Cap)
            /\ S!Dispatch /\ Silent /\ UNCHANGED <<cnt, subs, begun, finishing, dupl>>
StartPar == /\ IsEv("start") /\ ~Seq_ /\ Ev.id \in subs /\ Ev.id \notin begun
            /\ begun' = begun \cup {Ev.id} /\ running' = running \cup {Ev.id} /\ S!CapInv'
            /\ Consume /\ UNCHANGED <<queue, kicks, cnt, subs, finishing, dupl>>
Finish == IsEv("finish") /\ Ev.id \in running /\ finishing' = finishing \cup {Ev.id} /\ Consume /\ UNCHANGED <<queue, running, kicks, cnt, subs, begun, dupl>>
EndSeq == /\ IsEv("end") /\ Seq_ /\ Ev.id \in finishing /\ S!End(Ev.id)
          /\ finishing' = finishing \ {Ev.id} /\ Consume /\ UNCHANGED <<cnt, subs, begun, dupl>>
EndPar == /\ IsEv("end") /\ ~Seq_ /\ Ev.id \in running /\ running' = running \ {Ev.id}
          /\ Consume /\ UNCHANGED <<queue, kicks, cnt, subs, begun, finishing, dupl>>
\* At rest the engine has no free slot with a request waiting, and runs what the specification runs.
Rest == /\ IsEv("rest") /\ kicks = 0 /\ S!NoIdle /\ Ev.active = Cardinality(running) /\ finishing = {}
        /\ Consume /\ UNCHANGED vars
Final == /\ IsEv("final") /\ Ev.active = 0 /\ running = {} /\ begun = subs /\ Consume /\ UNCHANGED vars
TraceNext == SubmitSeq \/ SubRet \/ SubmitPar \/ StartSeq \/ IdleKick \/ StartPar \/ Finish \/ EndSeq \/ EndPar \/ Rest \/ Final
============================================================================
