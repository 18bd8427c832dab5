-------------------------------- MODULE LocksMC ------------------------------
EXTENDS Locks, TLC
Sym == Permutations(Procs)
==============================================================================
