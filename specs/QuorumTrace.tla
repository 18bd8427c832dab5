---------------------------- MODULE QuorumTrace ----------------------------
(* The sizes the code computes.  t is a threshold, groups have t + 1 members; key generations need everybody. *)
EXTENDS TraceBase
Q == INSTANCE Quorum
VARIABLES prevN, prev
TraceInit == TInit /\ prevN = 0 /\ prev = 0
TraceNext == /\ IsEv("quorum") /\ Consume
             /\ Q!Legit(Ev.n, Ev.t + 1)
             /\ Ev.ec = Ev.t + 1 /\ Ev.ed = Ev.t + 1
             /\ Ev.eckg = Ev.n /\ Ev.edkg = Ev.n
             /\ (prevN = Ev.n - 1 => Ev.t >= prev)
             /\ prevN' = Ev.n /\ prev' = Ev.t
=============================================================================
