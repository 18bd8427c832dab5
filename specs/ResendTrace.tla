----------------------------- MODULE ResendTrace -----------------------------
(* A real engine (node a) sends, receives and re-sends.  Events: own (a message of its own for targets), net (bytes    *)
(* that arrived), ask, learn (a new party), sent (what the engine wrote to the network), end.                        *)
EXTENDS TraceBase
VARIABLES kept, known, owed
Size == 64
Me == "a"
S == INSTANCE Resend
TraceInit == TInit /\ S!WInit /\ known = Range(Cfg.known) /\ owed = <<>>
Key(k) == <<k[1], k[2], k[3], k[4]>>
M == [outer |-> Ev.outer, inner |-> Ev.inner, signer |-> Ev.signer, intact |-> Ev.intact]
Owe(x) == IF x \in DOMAIN owed THEN owed[x] ELSE 0
Plus(xs) == owed' = TLCEval([x \in DOMAIN owed \cup xs |-> Owe(x) + (IF x \in xs THEN 1 ELSE 0)])
Own == /\ IsEv("own")
       /\ IF Ev.upd THEN S!Add(Me, Key(Ev.key), Ev.n) ELSE UNCHANGED kept
       /\ Plus({<<t, Ev.n>> : t \in (Range(Ev.targets) \cap known) \ {Me}})
       /\ UNCHANGED known
Net == IsEv("net") /\ S!Keep(M, Key(Ev.key), Ev.n) /\ UNCHANGED <<known, owed>>
\* k messages of one sender: with keys of their own, or again and again under the same key.
Burst == /\ IsEv("burst")
         /\ kept' = TLCEval([x \in DOMAIN kept \cup {Ev.from} |-> IF x # Ev.from THEN kept[x] ELSE
                       S!LastN(S!Of(x) \o [i \in 1..Ev.k |-> [key |-> <<"x", x, "", "B" \o ToString(IF Ev.same THEN Ev.n ELSE Ev.n + i - 1)>>, n |-> Ev.n + i - 1]], S!Room(x))])
         /\ UNCHANGED <<known, owed>>
Ask == IsEv("ask") /\ Plus(S!Reply(M, Key(Ev.key))) /\ UNCHANGED <<kept, known>>
Learn == IsEv("learn") /\ known' = known \cup {Ev.node} /\ UNCHANGED <<kept, owed>>
\* Everything that is sent is owed, unaltered and rightly signed.
Sent == /\ IsEv("sent") /\ Ev.intact
        /\ Owe(<<Ev.to, Ev.n>>) > 0
        /\ owed' = TLCEval([owed EXCEPT ![<<Ev.to, Ev.n>>] = @ - 1])
        /\ UNCHANGED <<kept, known>>
End == IsEv("end") /\ (\A x \in DOMAIN owed : owed[x] = 0) /\ UNCHANGED <<kept, known, owed>>
TraceNext == (Own \/ Net \/ Burst \/ Ask \/ Learn \/ Sent \/ End) /\ Consume
=============================================================================
