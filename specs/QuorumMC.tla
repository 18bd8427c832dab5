------------------------------ MODULE QuorumMC ------------------------------
EXTENDS Quorum
CONSTANTS MaxN, MaxSets
VARIABLE n
Init == n = 1
Next == n < MaxN /\ n' = n + 1
Ok == Legit(n, Group(n)) /\ Group(n + 1) >= Group(n)
\* The arithmetic condition is what makes groups overlap, by enumeration of all pairs of groups of small committees.
Overlap == n <= MaxSets =>
   \A A, B \in {S \in SUBSET (1..n) : Cardinality(S) = Group(n)} : A \cap B # {}
=============================================================================
