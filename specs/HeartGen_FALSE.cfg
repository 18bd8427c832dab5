INIT Init
NEXT Next
CONSTANTS
  N = 26
  Solo = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
