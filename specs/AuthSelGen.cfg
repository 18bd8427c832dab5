INIT Init
NEXT Next
CONSTANTS
  N = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
