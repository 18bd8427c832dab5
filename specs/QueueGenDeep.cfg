INIT Init
NEXT Next
CONSTANTS
  Cap = 2
  Types = {"edkeygen", "eckeygen", "ecsign", "edsign"}
  MaxIds = 9
  N = 22
INVARIANTS Sorted Fifo NoDup Emit
CHECK_DEADLOCK FALSE
