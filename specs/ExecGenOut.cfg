INIT Init
NEXT Next
CONSTANTS
  Batch = 2
  KeySet <- K2
  N = 5
  Mode = "out"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
