INIT Init
NEXT Next
CONSTANTS
  N = 16
  Forge = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
