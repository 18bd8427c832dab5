------------------------------- MODULE Quorum -------------------------------
(* Sizes of signing groups.  Group(n) is what the design uses; Legit states what C19 demands of any size.          *)
EXTENDS Integers, FiniteSets
Group(n) == ((n + 1) * 2) \div 3
Legit(n, m) == /\ 2 * m > n                                      \* two groups overlap: at least half plus one
               /\ m <= n
               /\ m >= (2 * n) \div 3 /\ m <= (2 * n + 2) \div 3     \* two thirds, rounded down or up
=============================================================================
