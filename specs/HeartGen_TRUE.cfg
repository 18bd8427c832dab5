INIT Init
NEXT Next
CONSTANTS
  N = 24
  Solo = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
