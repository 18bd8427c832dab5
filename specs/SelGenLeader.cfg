INIT Init
NEXT Next
CONSTANTS
  N = 7
  Leaders = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
