INIT Init
NEXT Next
CONSTANTS
  N = 24
  Works = {"w1", "w2", "w3", "w4", "w5"}
  Sizes = {1, 2, 3}
  Batches = {1, 2}
  Steps = {"ok", "ok2", "ok3", "fail"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
