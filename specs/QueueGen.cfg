INIT Init
NEXT Next
CONSTANTS
  Cap = 2
  Types = {"edkeygen", "ecsign"}
  MaxIds = 4
  N = 6
INVARIANTS Sorted Fifo NoDup Emit
CHECK_DEADLOCK FALSE
