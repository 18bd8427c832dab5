INIT Init
NEXT Next
CONSTANTS
  N = 22
  Hard = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
