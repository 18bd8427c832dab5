INIT Init
NEXT Next
CONSTANTS
  Batch = 3
  KeySet <- K3
  N = 10
  Mode = "out"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
