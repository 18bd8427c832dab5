------------------------------- MODULE Proto -------------------------------
(* What every party of a work sends in the threshold protocols (tss-lib), in the order in which it is produced: the   *)
(* type of the message, and whether it goes to all parties or separately to each other party.                        *)
EXTENDS Integers, Sequences, FiniteSets
Protocol(kind) ==
  CASE kind = "edkeygen"   -> << <<"KGRound1Message", TRUE>>, <<"KGRound2Message1", FALSE>>, <<"KGRound2Message2", TRUE>> >>
    [] kind = "eckeygen"   -> << <<"KGRound1Message", TRUE>>, <<"KGRound2Message1", FALSE>>, <<"KGRound2Message2", TRUE>>, <<"KGRound3Message", TRUE>> >>
    [] kind = "edsign"     -> << <<"SignRound1Message", TRUE>>, <<"SignRound2Message", TRUE>>, <<"SignRound3Message", TRUE>> >>
    [] kind = "ecsign"     -> << <<"SignRound1Message1", FALSE>>, <<"SignRound1Message2", TRUE>>, <<"SignRound2Message", FALSE>>,
                                 <<"SignRound3Message", TRUE>>, <<"SignRound4Message", TRUE>>, <<"SignRound5Message", TRUE>>,
                                 <<"SignRound6Message", TRUE>>, <<"SignRound7Message", TRUE>> >>
    [] kind = "presigning" -> << <<"SignRound1Message1", FALSE>>, <<"SignRound1Message2", TRUE>>, <<"SignRound2Message", FALSE>>,
                                 <<"SignRound3Message", TRUE>>, <<"SignRound4Message", TRUE>>, <<"SignRound5Message", TRUE>>,
                                 <<"SignRound6Message", TRUE>> >>
    [] kind = "presign"    -> << <<"SignRound7Message", TRUE>> >>
\* What node me sends: <<type, destination>>, "*" for everybody.
Messages(kind, me, all) ==
  UNION {IF Protocol(kind)[i][2] THEN {<<Protocol(kind)[i][1], "*">>}
         ELSE {<<Protocol(kind)[i][1], p>> : p \in all \ {me}} : i \in 1..Len(Protocol(kind))}
IsCast(kind, typ) == \E i \in 1..Len(Protocol(kind)) : Protocol(kind)[i] = <<typ, TRUE>>
IsUni(kind, typ) == \E i \in 1..Len(Protocol(kind)) : Protocol(kind)[i] = <<typ, FALSE>>
============================================================================
