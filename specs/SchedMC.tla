------------------------------ MODULE SchedMC ------------------------------
(* Exhaustive exploration of Scheduler, and generator of histories. *)
EXTENDS Scheduler, TLC, Json
CONSTANTS Types,      \* the concrete work types
          MaxIds,     \* number of different requests
          MaxAcc,     \* number of accepted requests (exhaustive run)
          N           \* length of the generated histories (0: exhaustive run without history)

VARIABLES typ,        \* concrete type of every request id used so far (sequence, ids are r1, r2, ...)
          acc,        \* number of requests accepted so far
          started,    \* number of works started so far, per id
          hist

mvars == <<svars, typ, acc, started, hist>>
Id(i) == "r" \o ToString(i)
ClsOf(t) == IF t \in {"eckeygen", "edkeygen"} THEN "keygen" ELSE "sign"

Init == SInit /\ typ = <<>> /\ acc = 0 /\ started = [i \in 1..MaxIds |-> 0] /\ hist = <<>>

Log(h) == hist' = IF N = 0 THEN hist ELSE Append(hist, h)

DoSubmit(i, t) ==
  /\ i <= Len(typ) + 1 /\ i <= MaxIds
  /\ i <= Len(typ) => t = typ[i]
  /\ typ' = IF i <= Len(typ) THEN typ ELSE Append(typ, t)
  /\ N = 0 => acc < MaxAcc
  /\ acc' = IF Id(i) \in Waiting \cup running THEN acc ELSE acc + 1
  /\ Submit([id |-> Id(i), cls |-> ClsOf(t), inst |-> acc])
  /\ UNCHANGED started
  /\ Log([op |-> "submit", id |-> Id(i), t |-> t])

DoDispatch ==
  /\ Dispatch
  /\ started' = [i \in 1..MaxIds |-> IF Id(i) \in running' \ running THEN started[i] + 1 ELSE started[i]]
  /\ UNCHANGED <<typ, acc, hist>>

DoEnd(i, how) ==
  /\ i <= Len(typ)
  /\ how = "excluded" => ClsOf(typ[i]) = "sign"
  /\ End(Id(i))
  /\ UNCHANGED <<typ, acc, started>>
  /\ Log([op |-> "end", id |-> Id(i), how |-> how])

\* For generation, the dispatcher runs before the next step (the driver lets the engine come to rest).
Settled == N = 0 \/ kicks = 0

Max1 == IF N = 0 THEN 1 ELSE N
Hows == IF N = 0 THEN {"fail"} ELSE {"fail", "invalid", "excluded"}
AnySubmit == Settled /\ Len(hist) < Max1 /\ \E i \in 1..MaxIds, t \in Types : DoSubmit(i, t)
AnyEnd == Settled /\ Len(hist) < Max1 /\ \E i \in 1..MaxIds, h \in Hows : DoEnd(i, h)
Next == DoDispatch \/ AnySubmit \/ AnyEnd

\* Every accepted request is waiting or was started, exactly once.
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
ExactlyOnce == acc = Len(queue) + Sum(started, MaxIds)
Emit == N = 0 \/ Len(hist) < N \/ kicks > 0 \/ PrintT(ToJson(hist))
Spec == Init /\ [][Next]_mvars
LiveSpec == Spec /\ WF_mvars(DoDispatch) /\ \A i \in 1..MaxIds : WF_mvars(DoEnd(i, "fail"))
\* If works end, every accepted request is started.
AllStart == \A i \in 1..MaxIds : Id(i) \in Waiting ~> Id(i) \in running
============================================================================
