------------------------------ MODULE ExecMC ------------------------------
EXTENDS Exec, TLC, Json
CONSTANTS Batch, KeySet, N, Mode \* Mode: "mc", "out" or "res"
VARIABLE hist
vars == <<batch, out, sent, res, cause, report, hist>>
Log(h) == hist' = IF Mode = "mc" THEN hist ELSE Append(hist, h)
Room == Mode = "mc" \/ Len(hist) < N
Init == ExecInit(Batch) /\ hist = <<>>
KeyName(k) == IF k[2] = "*" THEN k[1] ELSE k[1] \o ":" \o k[2]
ProduceAny == Room /\ Mode # "res" /\ \E k \in KeySet, j \in Jobs : Produce(k, j, <<k, j>>) /\ Log([op |-> "out", j |-> j, key |-> KeyName(k)])
DispatchAny == Mode = "mc" /\ \E k \in KeySet : Dispatch(k) /\ UNCHANGED hist
ResultAny == Room /\ Mode # "out" /\ \E j \in Jobs, ok \in BOOLEAN : Result(j, ok) /\ Log([op |-> "res", j |-> j, ok |-> ok])
FailAny == Room /\ Mode # "out" /\ ~cause /\ Fail /\ Log([op |-> "timeout"])
\* For the generator of outputs: the work ends on this node in some way while jobs still produce messages.
EndAny == Room /\ Mode = "out" /\ ~cause /\ Fail /\ \E how \in {"stop", "timeout", "ok", "fail"} : Log([op |-> "end", how |-> how])
ReportAny == Mode = "mc" /\ \E ok \in BOOLEAN : Report(ok) /\ UNCHANGED hist
Next == ProduceAny \/ DispatchAny \/ ResultAny \/ FailAny \/ EndAny \/ ReportAny
\* Nothing is sent early, and whatever has been produced completely can still be sent, also after the work ended.
NotEarly == \A k \in sent : Complete(k)
CanSend == \A k \in Keys : (Complete(k) /\ k \notin sent) => ENABLED Dispatch(k)
Right == \A k \in sent : \A i \in 1..Batch : <<k, i - 1, Payloads(k)[i]>> \in out
Truth == (report = "ok" => AllOk) /\ (report = "fail" => (cause \/ SomeFailed))
Live == (MustReport /\ report = "none") => ENABLED (\E ok \in BOOLEAN : Report(ok))
Emit == Mode = "mc" \/ Len(hist) < N \/ PrintT(ToJson(hist))
EmitEnd == Mode = "mc" \/ ~(Ended = Jobs \/ (cause /\ Len(hist) = N)) \/ PrintT(ToJson(hist))
K3 == {<<"r1", "*">>, <<"r2", "b">>, <<"r2", "c">>}
K2 == {<<"r1", "*">>, <<"r2", "b">>}
=============================================================================
