CONSTANTS Procs = {p1, p2, p3}
  MaxCalls = 1
SPECIFICATION Spec
SYMMETRY Sym
INVARIANT NoDeadlock
INVARIANT Exclusive
INVARIANT NoRace
INVARIANT Simple
INVARIANT Ordered
CHECK_DEADLOCK FALSE
