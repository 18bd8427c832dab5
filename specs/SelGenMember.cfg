INIT Init
NEXT Next
CONSTANTS
  N = 7
  Leaders = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
