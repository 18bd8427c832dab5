------------------------------- MODULE Exec -------------------------------
(* The executor of a work on one node (worker/worker_executor.go): it combines the messages that the jobs of a batch   *)
(* produce, and the results of the jobs.  A key is a round and destination: <<type, destination>>, "*" for everybody.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES batch,   \* the number of jobs of the work
          out,     \* what the jobs have produced: set of <<key, job, payload>>
          sent,    \* the keys whose combined message was sent
          res,     \* results of the jobs: set of <<job, success>>
          cause,   \* something else made the work fail
          report   \* what was reported: "none", "ok" or "fail"
Jobs == 0..(batch - 1)
ExecInit(b) == batch = b /\ out = {} /\ sent = {} /\ res = {} /\ cause = FALSE /\ report = "none"
Produced(k) == {x[2] : x \in {y \in out : y[1] = k}}
Complete(k) == Produced(k) = Jobs
Keys == {x[1] : x \in out}
Produce(k, j, pl) ==
  /\ j \notin Produced(k)
  /\ out' = out \cup {<<k, j, pl>>}
  /\ UNCHANGED <<batch, sent, res, cause, report>>
\* The combined message of a key carries the payload of every job at the position of the job.
Payloads(k) == [i \in 1..batch |-> (CHOOSE x \in out : x[1] = k /\ x[2] = i - 1)[3]]
Dispatch(k) ==
  /\ Complete(k) /\ k \notin sent
  /\ sent' = sent \cup {k}
  /\ UNCHANGED <<batch, out, res, cause, report>>
AllSent == \A k \in Keys : Complete(k) => k \in sent
Ended == {x[1] : x \in res}
Result(j, ok) ==
  /\ j \notin Ended
  /\ res' = res \cup {<<j, ok>>}
  /\ UNCHANGED <<batch, out, sent, cause, report>>
\* A time limit passed, a job could not start, or a protocol message was rejected.
Fail == cause' = TRUE /\ UNCHANGED <<batch, out, sent, res, report>>
AllOk == \A j \in Jobs : <<j, TRUE>> \in res
SomeFailed == \E x \in res : ~x[2]
Report(ok) ==
  /\ report = "none"
  /\ IF ok THEN AllOk ELSE (cause \/ SomeFailed)
  /\ report' = IF ok THEN "ok" ELSE "fail"
  /\ UNCHANGED <<batch, out, sent, res, cause>>
MustReport == Ended = Jobs \/ cause
============================================================================
