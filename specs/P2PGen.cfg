INIT Init
NEXT Next
CONSTANTS
  N = 22
INVARIANT Emit
CHECK_DEADLOCK FALSE
