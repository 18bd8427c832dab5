------------------------------- MODULE HeartTrace ----------------------------
(* Calls of a host to real nodes, and the nodes' replies.  Events: call [c, h, kind, val, id, type, valid, must] (kind:    *)
(* ready (val: the state), setkey (id: the kind of key), keygen, keysign (val: known parties, all contents can be signed;   *)
(* valid: known key type, messages; must: all nodes were asked and are able to do it)), ret [c, ok], key [h, type, ok,      *)
(* valid, same] (reply to a key generation; same: the key that was reported first), sign [h, id, what, same, valid] (reply *)
(* to a signing; same: it carries that very request; valid: a valid signature for every message, in order), settle (all   *)
(* replies had time to come).  Every call takes effect at one moment between its two events (Lin).                         *)
EXTENDS TraceBase
VARIABLES st, calls, todo, told, outs
vars == <<st, calls, todo, told, outs>>
\* st: per node [set, ready]; calls: the calls so far; todo: accepted requests without reply; told: <<node, type>> keys reported; outs: replies to signings that must succeed.
TraceInit == TInit /\ st = [i \in {} |-> 0] /\ calls = <<>> /\ todo = {} /\ told = {} /\ outs = {}
St(h) == IF h \in DOMAIN st THEN st[h] ELSE [set |-> FALSE, ready |-> FALSE]
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Call == /\ IsEv("call") /\ Ev.c = Len(calls) + 1
        /\ calls' = Append(calls, [h |-> Ev.h, kind |-> Ev.kind, val |-> Ev.val, id |-> Ev.id, type |-> Ev.type, valid |-> Ev.valid, must |-> Ev.must,
                                   key |-> <<Ev.h, Ev.type>> \in told, lin |-> FALSE, res |-> FALSE, back |-> FALSE])
        /\ UNCHANGED <<st, todo, told, outs>>
Earlier(c) == \E d \in 1..Len(calls) : d # c /\ calls[d].h = calls[c].h /\ calls[d].id = calls[c].id /\ calls[d].kind = calls[c].kind
HadKeygen(c) == \E d \in 1..Len(calls) : calls[d].h = calls[c].h /\ calls[d].kind = "keygen" /\ calls[d].type = calls[c].type /\ calls[d].res
RightKey == {"good", "busy", "badpeer"}
Lin(c, res) ==
  LET x == calls[c] s == St(x.h) IN
  /\ ~x.lin
  /\ calls' = [calls EXCEPT ![c].lin = TRUE, ![c].res = res]
  /\ UNCHANGED <<told, outs>>
  /\ CASE x.kind = "ready" -> res /\ st' = Put(st, x.h, [s EXCEPT !.ready = x.val]) /\ UNCHANGED todo
       [] x.kind = "setkey" ->
            \* A key that is not right is refused; so is another key than the one that is set.
            /\ (x.id \notin RightKey) => (~res \/ (s.set /\ x.id \in {"badtype", "wrongtype"}))
            /\ (x.id = "good" /\ ~s.set) => res
            /\ st' = IF res THEN Put(st, x.h, [s EXCEPT !.set = TRUE]) ELSE st
            /\ UNCHANGED todo
       [] OTHER ->
            /\ (~s.set \/ ~s.ready \/ ~x.valid) => ~res
            /\ (x.kind = "keysign" /\ ~HadKeygen(c)) => ~res
            /\ (s.set /\ s.ready /\ x.valid /\ x.val /\ ~Earlier(c) /\ (x.kind = "keysign" => x.key)) => res
            /\ todo' = IF res /\ ~(x.kind = "keygen" /\ \E d \in todo : calls[d].h = x.h /\ calls[d].id = x.id) THEN todo \cup {c} ELSE todo
            /\ UNCHANGED st
DoLin == /\ \E c \in 1..Len(calls), res \in BOOLEAN : Lin(c, res)
         /\ Silent
Ret == /\ IsEv("ret") /\ calls[Ev.c].lin /\ calls[Ev.c].res = Ev.ok /\ ~calls[Ev.c].back
       /\ calls' = [calls EXCEPT ![Ev.c].back = TRUE] /\ UNCHANGED <<st, todo, told, outs>>
Key == /\ IsEv("key") /\ Ev.valid
       /\ LET C == {c \in todo : calls[c].kind = "keygen" /\ calls[c].h = Ev.h /\ calls[c].type = Ev.type} IN
          /\ C # {} /\ \E c \in {CHOOSE x \in C : TRUE} : todo' = todo \ {c}
          /\ (Cfg.sure /\ \A c \in C : calls[c].must) => (Ev.ok /\ Ev.same)
       /\ told' = IF Ev.ok THEN told \cup {<<Ev.h, Ev.type>>} ELSE told
       /\ UNCHANGED <<st, calls, outs>>
Sign == /\ IsEv("sign") /\ Ev.same
        /\ LET C == {c \in todo : calls[c].kind = "keysign" /\ calls[c].h = Ev.h /\ calls[c].id = Ev.id} IN
           /\ C # {} /\ \E c \in {CHOOSE x \in C : TRUE} : todo' = todo \ {c}
           /\ \A c \in C : (calls[c].must /\ Cfg.sure) => Ev.what \in {"ok", "notsel"}
           /\ outs' = IF \E c \in C : calls[c].must THEN outs \cup {<<Ev.id, Ev.h, Ev.what>>} ELSE outs
        /\ (Ev.what = "ok") => Ev.valid
        /\ UNCHANGED <<st, calls, told>>
Settle == /\ IsEv("settle") /\ todo = {} /\ (\A c \in 1..Len(calls) : calls[c].back)
          /\ Cfg.sure => \A id \in {o[1] : o \in outs} : Cardinality({o \in outs : o[1] = id /\ o[3] = "ok"}) = Cfg.t + 1
          /\ UNCHANGED vars
TraceNext == ((Call \/ Ret \/ Key \/ Sign \/ Settle) /\ Consume) \/ DoLin
==============================================================================
