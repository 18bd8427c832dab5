INIT Init
NEXT Next
CONSTANTS
  Batch = 3
  KeySet <- K2
  N = 4
  Mode = "res"
INVARIANTS EmitEnd
CHECK_DEADLOCK FALSE
