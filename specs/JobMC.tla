------------------------------- MODULE JobMC -------------------------------
EXTENDS Job
M3 == <<"m1", "m2", "m3">>
Next == JNext
Spec == JInit /\ [][JNext]_jvars /\ WF_jvars(JNext)
\* A job that stopped with its result has handed over everything; a job always ends; without the result only a timeout.
HandedAll == (ended /\ outcome = "ok") => handed = 1..Len(Msgs)
OnlyTimeout == outcome = "timeout" => late
OnlyOk == outcome = "ok" => done
Ends == <>ended
Once == [][outcome # "none" => outcome' = outcome]_jvars
=============================================================================
