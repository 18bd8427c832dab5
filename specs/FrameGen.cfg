INIT Init
NEXT Next
CONSTANTS
  N = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
