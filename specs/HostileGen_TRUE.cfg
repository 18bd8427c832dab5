INIT Init
NEXT Next
CONSTANTS
  N = 22
  Hard = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
