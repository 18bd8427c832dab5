INIT Init
NEXT Next
CONSTANTS
  N = 16
  Forge = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
