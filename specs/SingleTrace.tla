------------------------------- MODULE SingleTrace ---------------------------
(* Requests to the real service of a single node.  Events: call [id, kind, type, n, plain] (plain: n > 0 messages which    *)
(* can be signed), ret [id, ok], key [type, key, ok] (the reply to a key generation: the number of the key, ok: success     *)
(* with a key of that type), sign [id, same, ok, by] (the reply to a signing: same: it names that very request; by: for     *)
(* every signature the keys of the type reported in this run under which it verifies for the message at its position),      *)
(* settle (nothing has happened for longer than the service delays its replies).                                            *)
EXTENDS TraceBase
VARIABLES calls, todo, told
vars == <<calls, todo, told>>
\* calls: id -> the call, ret: "" / "ok" / "no"; todo: accepted or open requests without reply; told: key -> [type, at]
TraceInit == TInit /\ calls = <<>> /\ todo = {} /\ told = <<>>
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Types == {"ecdsa", "eddsa"}
Call == /\ IsEv("call") /\ calls' = Put(calls, Ev.id, [kind |-> Ev.kind, type |-> Ev.type, n |-> Ev.n, plain |-> Ev.plain, at |-> l, ret |-> ""])
        /\ todo' = todo \cup {Ev.id} /\ UNCHANGED told
KeyAccepted(t) == \E i \in DOMAIN calls : calls[i].kind = "keygen" /\ calls[i].type = t /\ calls[i].ret # "no"
KeyTold(t, at) == \E k \in DOMAIN told : told[k].type = t /\ told[k].at < at
Ret == /\ IsEv("ret")
       /\ LET c == calls[Ev.id] IN
          /\ c.type \notin Types => ~Ev.ok
          /\ c.kind = "keygen" /\ c.type \in Types => Ev.ok
          \* a signing is refused as long as there is no key, and not when its key has been reported
          /\ c.kind = "sign" /\ ~KeyAccepted(c.type) => ~Ev.ok
          /\ c.kind = "sign" /\ c.plain /\ KeyTold(c.type, c.at) => Ev.ok
          /\ calls' = [calls EXCEPT ![Ev.id].ret = IF Ev.ok THEN "ok" ELSE "no"]
       \* no reply to a refused request
       /\ ~Ev.ok => Ev.id \in todo
       /\ todo' = IF Ev.ok THEN todo ELSE todo \ {Ev.id}
       /\ UNCHANGED told
\* (The reply to a key generation names its key type.)
Key == /\ IsEv("key") /\ Ev.ok
       /\ told' = Put(told, Ev.key, [type |-> Ev.type, at |-> l])
       /\ LET C == {i \in todo : calls[i].kind = "keygen" /\ calls[i].type = Ev.type} IN
          C # {} /\ LET i == CHOOSE x \in C : \A y \in C : calls[x].at <= calls[y].at IN todo' = todo \ {i}
       /\ UNCHANGED calls
\* Key k was replaced before the call at index at: a key o of its type was reported after it and before the call, and all
\* key generations that were asked for before k was reported had been answered before o was reported.
Asked(k) == {i \in DOMAIN calls : calls[i].kind = "keygen" /\ calls[i].type = told[k].type /\ calls[i].at < told[k].at /\ calls[i].ret # "no"}
Replaced(k, at) == \E o \in DOMAIN told : /\ told[o].type = told[k].type /\ told[k].at < told[o].at /\ told[o].at < at
                                          /\ Cardinality({x \in DOMAIN told : told[x].type = told[k].type /\ told[x].at < told[o].at}) >= Cardinality(Asked(k))
Sign == /\ IsEv("sign") /\ Ev.same /\ Ev.id \in todo /\ calls[Ev.id].kind = "sign"
        /\ LET c == calls[Ev.id] IN
           /\ c.plain => Ev.ok
           /\ Ev.ok => /\ Len(Ev.by) = c.n
                       /\ \A m \in 1..c.n : \E k \in Range(Ev.by[m]) : k \in DOMAIN told /\ told[k].type = c.type /\ ~Replaced(k, c.at)
        /\ todo' = todo \ {Ev.id} /\ UNCHANGED <<calls, told>>
Settle == IsEv("settle") /\ todo = {} /\ UNCHANGED vars
TraceNext == (Call \/ Ret \/ Key \/ Sign \/ Settle) /\ Consume
==============================================================================
