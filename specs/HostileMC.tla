------------------------------- MODULE HostileMC -----------------------------
EXTENDS Hostile, TLC
Sym == Permutations(Senders)
=============================================================================
