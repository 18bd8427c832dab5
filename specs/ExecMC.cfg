INIT Init
NEXT Next
CONSTANTS
  Batch = 2
  KeySet <- K3
  N = 0
  Mode = "mc"
INVARIANTS NotEarly CanSend Right Truth Live
CHECK_DEADLOCK FALSE
