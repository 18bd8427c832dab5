--------------------------- MODULE EncStoreTrace ---------------------------
EXTENDS TraceBase
VARIABLES entries, secret
Valid == {"s1", "s2", "s3"}
E == INSTANCE EncStore
TraceInit == TInit /\ E!EInit
Same == UNCHANGED <<entries, secret>>
\* values that are too short to be recognised inside other bytes
Short == {"empty", "one"}
TraceNext ==
  /\ \/ IsEv("put") /\ Ev.ok = (secret \in Valid) /\ E!Put(Ev.key, Ev.v) /\ UNCHANGED secret
     \/ IsEv("putraw") /\ Ev.ok /\ E!PutRaw(Ev.key, Ev.v) /\ UNCHANGED secret
     \/ IsEv("tamper") /\ (IF Ev.done THEN E!Tamper(Ev.key) ELSE UNCHANGED entries) /\ UNCHANGED secret
     \/ IsEv("reopen") /\ Ev.ok /\ E!Open(Ev.s)
     \/ IsEv("get") /\ Ev.res = E!GetRes(Ev.key) /\ Same
     \/ IsEv("getraw") /\ Same
        /\ IF Ev.key \notin DOMAIN entries THEN Ev.res = "missing"
           ELSE IF E!RawReadable(Ev.key) THEN Ev.res = entries[Ev.key].v
           ELSE entries[Ev.key].kind = "enc" => Ev.res \in {"?"} \cup Short
     \/ IsEv("aes") /\ Ev.res = (IF Ev.what = "good" THEN "same" ELSE "err") /\ Same
  /\ Consume
=============================================================================
