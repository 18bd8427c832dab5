INIT Init
NEXT Next
CONSTANTS
  N = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
