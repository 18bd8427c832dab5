------------------------------ MODULE EncStore ------------------------------
(* The encrypted store (store/store.go).  An entry is [kind, v, s]: a value encrypted under secret s, a plain value,  *)
(* or bytes that somebody tampered with.                                                                            *)
EXTENDS Integers, Sequences
CONSTANT Valid        \* secrets that are usable keys
VARIABLES entries, secret
EInit == entries = <<>> /\ secret = "s1"
Set(k, e) == entries' = [x \in DOMAIN entries \cup {k} |-> IF x = k THEN e ELSE entries[x]]
Put(k, v) == IF secret \in Valid THEN Set(k, [kind |-> "enc", v |-> v, s |-> secret]) ELSE UNCHANGED entries
PutRaw(k, v) == Set(k, [kind |-> "plain", v |-> v, s |-> ""])
Tamper(k) == k \in DOMAIN entries /\ Set(k, [kind |-> "bad", v |-> "", s |-> ""])
Open(s) == secret' = s /\ UNCHANGED entries
GetRes(k) == IF k \notin DOMAIN entries THEN "missing"
             ELSE IF entries[k].kind = "enc" /\ entries[k].s = secret THEN entries[k].v ELSE "err"
RawReadable(k) == k \in DOMAIN entries /\ entries[k].kind = "plain"
=============================================================================
