-------------------------------- MODULE Job --------------------------------
(* One job (worker/job.go): the protocol puts its messages and finally its result into channels, from which the job    *)
(* hands them over.  It has a time limit.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Msgs      \* what the protocol produces, in order (a sequence)
VARIABLES made,    \* how many messages the protocol has produced
          handed,  \* set of indexes of the messages that were handed over
          done,    \* the protocol has produced its result
          late,    \* the time limit has passed
          outcome, \* what was reported: "none", "ok", "timeout"
          ended    \* the job has stopped
jvars == <<made, handed, done, late, outcome, ended>>
JInit == made = 0 /\ handed = {} /\ done = FALSE /\ late = FALSE /\ outcome = "none" /\ ended = FALSE
Make == made < Len(Msgs) /\ made' = made + 1 /\ UNCHANGED <<handed, done, late, outcome, ended>>
Finish == made = Len(Msgs) /\ ~done /\ done' = TRUE /\ UNCHANGED <<made, handed, late, outcome, ended>>
Pass == ~late /\ late' = TRUE /\ UNCHANGED <<made, handed, done, outcome, ended>>
\* The oldest message of the channel.
Hand == /\ ~ended /\ \E i \in 1..made : i \notin handed /\ (\A k \in 1..(i - 1) : k \in handed) /\ handed' = handed \cup {i}
        /\ UNCHANGED <<made, done, late, outcome, ended>>
Report == ~ended /\ done /\ outcome = "none" /\ outcome' = "ok" /\ UNCHANGED <<made, handed, done, late, ended>>
Expire == ~ended /\ late /\ outcome = "none" /\ outcome' = "timeout" /\ ended' = TRUE /\ UNCHANGED <<made, handed, done, late>>
Stop == ~ended /\ outcome = "ok" /\ handed = 1..Len(Msgs) /\ ended' = TRUE /\ UNCHANGED <<made, handed, done, late, outcome>>
JNext == Make \/ Finish \/ Pass \/ Hand \/ Report \/ Expire \/ Stop
=============================================================================
