----------------------------- MODULE EncStoreMC -----------------------------
EXTENDS EncStore, TLC, Json
CONSTANTS Keys, Vals, Secrets, Hows, N
VARIABLES hist, truth    \* truth: key -> <<value, secret>> last put through the encrypted interface and untouched since
Init == EInit /\ hist = <<>> /\ truth = [k \in Keys |-> <<>>]
Log(h) == hist' = IF N = 0 THEN hist ELSE Append(hist, h)
More == N = 0 \/ Len(hist) < N
DoPut == More /\ \E k \in Keys, v \in Vals : Put(k, v) /\ UNCHANGED secret /\ Log([op |-> "put", key |-> k, v |-> v])
              /\ truth' = IF secret \in Valid THEN [truth EXCEPT ![k] = <<v, secret>>] ELSE truth
DoRaw == More /\ \E k \in Keys, v \in Vals : PutRaw(k, v) /\ UNCHANGED secret /\ Log([op |-> "putraw", key |-> k, v |-> v])
              /\ truth' = [truth EXCEPT ![k] = <<>>]
DoTamper == More /\ \E k \in Keys, h \in Hows : Tamper(k) /\ UNCHANGED secret /\ Log([op |-> "tamper", key |-> k, how |-> h])
              /\ truth' = [truth EXCEPT ![k] = <<>>]
DoOpen == More /\ \E s \in Secrets : Open(s) /\ UNCHANGED truth /\ Log([op |-> "reopen", s |-> s])
DoGet == More /\ N > 0 /\ \E k \in Keys, o \in {"get", "getraw"} : UNCHANGED <<entries, secret, truth>> /\ Log([op |-> o, key |-> k])
Next == DoPut \/ DoRaw \/ DoTamper \/ DoOpen \/ DoGet
\* Read what was written, with the right secret only.
Faithful == \A k \in Keys : LET r == GetRes(k) IN
   IF truth[k] # <<>> /\ truth[k][2] = secret THEN r = truth[k][1] ELSE r \in {"missing", "err"}
Emit == N = 0 \/ Len(hist) < N \/ PrintT(ToJson(hist))
=============================================================================
