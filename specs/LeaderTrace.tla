----------------------------- MODULE LeaderTrace -----------------------------
(* The leader of a work, as derived from many orders of its parties: always the same, and a party.  Over many works   *)
(* more than one party leads, and different works of the same parties may have different leaders.                    *)
EXTENDS TraceBase
VARIABLE leaders
TraceInit == TInit /\ leaders = {}
Parties == Range(Cfg.all)
Leader == /\ IsEv("leader") /\ Ev.got # <<>>
          /\ \A i \in 1..Len(Ev.got) : Ev.got[i] = Ev.got[1]
          /\ Ev.got[1] \in Parties
          /\ leaders' = leaders \cup {Ev.got[1]}
TraceNext == Leader /\ Consume
=============================================================================
