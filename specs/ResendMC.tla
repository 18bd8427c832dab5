------------------------------ MODULE ResendMC ------------------------------
(* Me, other parties, and an adversary who owns the key of one of them and can alter, forge, relay and repeat.        *)
EXTENDS Resend
CONSTANTS Parties, Bad, Strangers, Rounds, MaxSent
VARIABLES sent,    \* <<key, n>> that their senders have really sent
          net,     \* messages that exist: [outer, inner, signer, intact, key, n]
          given,   \* <<to whom, key, n>> that Me has re-sent
          cnt
vars == <<kept, known, sent, net, given, cnt>>
All == Parties \cup Strangers
MInit == WInit /\ known = Parties \cup {Me} /\ sent = {} /\ net = {} /\ given = {} /\ cnt = 0
Keys(s) == {<<"w", s, to, r>> : to \in (Parties \cup {Me, ""}) \ {s}, r \in Rounds}
Honest(s) == /\ cnt < MaxSent
             /\ \E k \in Keys(s) :
                  /\ cnt' = cnt + 1
                  /\ sent' = sent \cup {<<k, cnt + 1>>}
                  /\ net' = net \cup {[outer |-> s, inner |-> s, signer |-> s, intact |-> TRUE, key |-> k, n |-> cnt + 1]}
             /\ UNCHANGED <<kept, known, given>>
\* The adversary alters content and envelope, and signs only with his own key.
Forge == /\ cnt < MaxSent
         /\ \E s \in Parties, o \in Parties \cup Strangers, k \in UNION {Keys(x) : x \in Parties}, own \in BOOLEAN :
              /\ k[2] = s
              /\ cnt' = cnt + 1
              /\ \E g \in (IF own THEN {Bad} ELSE {x \in {m.signer : m \in net} : TRUE}) :
                   net' = net \cup {[outer |-> o, inner |-> s, signer |-> g, intact |-> own, key |-> k, n |-> cnt + 1]}
         /\ UNCHANGED <<kept, known, sent, given>>
Own == /\ cnt < MaxSent
       /\ \E k \in Keys(Me) : Add(Me, k, cnt + 1) /\ sent' = sent \cup {<<k, cnt + 1>>}
       /\ cnt' = cnt + 1
       /\ UNCHANGED <<known, net, given>>
Receive == \E m \in net : Keep(m, m.key, m.n) /\ UNCHANGED <<known, sent, net, given, cnt>>
Ask == \E a \in All, k \in {x[1] : x \in sent} :
          /\ given' = given \cup {<<r[1], k, r[2]>> : r \in Reply([outer |-> a, inner |-> a, signer |-> a, intact |-> TRUE], k)}
          /\ UNCHANGED <<kept, known, sent, net, cnt>>
AnyHonest == \E s \in Parties : Honest(s)
Next == AnyHonest \/ Forge \/ Own \/ Receive \/ Ask
\* Only what its sender sent is kept or given away, and only to whom it was for.
OnlyGenuine == /\ \A s \in DOMAIN kept : \A i \in 1..Len(kept[s]) : s # Bad => <<kept[s][i].key, kept[s][i].n>> \in sent
               /\ \A g \in given : g[2][2] # Bad => <<g[2], g[3]>> \in sent
Addressees == \A g \in given : g[1] \in known /\ (g[2][3] = "" \/ g[2][3] = g[1])
=============================================================================
