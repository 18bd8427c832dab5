----------------------------- MODULE AuthSelTrace ----------------------------
(* A selection in a real engine (node a) that gets genuine and forged messages: only genuine ones count.              *)
(* Events: inj [typ (resp, ann, upd), who (claimed sender), outer, inner, signer, intact, late, ok, sel] what arrives;     *)
(* announce [ok, sel] by a as the leader; exec (a takes part in the protocol); outcome [what, early].                  *)
EXTENDS TraceBase
VARIABLES kept, known, yes, sure, told, ann, ran, out
vars == <<kept, known, yes, sure, told, ann, ran, out>>
Size == 64
Me == "a"
S == INSTANCE Resend
TraceInit == TInit /\ S!WInit /\ known = Range(Cfg.known) /\ yes = {"a"} /\ sure = {"a"} /\ told = {} /\ ann = "none" /\ ran = FALSE /\ out = FALSE
Good == S!Genuine([outer |-> Ev.outer, inner |-> Ev.inner, signer |-> Ev.signer, intact |-> Ev.intact])
Inj == /\ IsEv("inj")
       /\ yes' = IF Good /\ Ev.typ = "resp" THEN yes \cup {Ev.inner} ELSE yes
       /\ sure' = IF Good /\ Ev.typ = "resp" /\ ~Ev.late THEN sure \cup {Ev.inner} ELSE sure
       \* announcements of the leader that this node has got
       /\ told' = IF Good /\ Ev.typ = "ann" /\ Ev.inner = Cfg.leader THEN told \cup {<<Ev.ok, Range(Ev.sel), Ev.late>>} ELSE told
       /\ UNCHANGED <<kept, known, ann, ran, out>>
Announce == /\ IsEv("announce") /\ Cfg.leader = "a" /\ ann = "none"
            /\ IF Ev.ok THEN Range(Ev.sel) \subseteq yes /\ Cardinality(Range(Ev.sel)) = Cfg.t + 1 /\ "a" \in Range(Ev.sel)
               ELSE Cardinality(sure) < Cfg.t + 1
            /\ ann' = IF Ev.ok THEN "ok" ELSE "no"
            /\ UNCHANGED <<kept, known, yes, sure, told, ran, out>>
Included == \E x \in told : x[1] /\ "a" \in x[2]
Excluded == \E x \in told : x[1] /\ "a" \notin x[2]
Refused == \E x \in told : ~x[1]
Exec == /\ IsEv("exec") /\ ~ran /\ ran' = TRUE
        /\ IF Cfg.leader = "a" THEN Cardinality(yes) >= Cfg.t + 1 ELSE Included
        /\ UNCHANGED <<kept, known, yes, sure, told, ann, out>>
Outcome == /\ IsEv("outcome") /\ ~out /\ out' = TRUE
           /\ Ev.what \in {"notsel", "fail"}
           /\ (Ev.what = "notsel") => (Cfg.leader # "a" /\ Excluded)
           \* A failure needs a reason: the time limit has passed, the leader has given up, or the protocol has failed.
           /\ (Ev.what = "fail" /\ Ev.early) => (ran \/ Refused)
           /\ UNCHANGED <<kept, known, yes, sure, told, ann, ran>>
\* A genuine announcement in time is followed.
End == /\ IsEv("end") /\ out
       /\ (Cfg.leader # "a" /\ ~Refused /\ ~Excluded /\ (\E x \in told : x[1] /\ "a" \in x[2] /\ ~x[3])) => ran
       /\ (Cfg.leader = "a") => (ann # "none" /\ ((ann = "ok") <=> ran))
       /\ UNCHANGED vars
TraceNext == (Inj \/ Announce \/ Exec \/ Outcome \/ End) /\ Consume
=============================================================================
