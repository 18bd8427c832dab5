INIT Init
NEXT Next
CONSTANTS
  Cap = 2
  Types = {"edkeygen", "eckeygen", "ecsign", "edsign"}
  MaxIds = 7
  MaxAcc = 99
  N = 14
INVARIANTS Sorted Fifo NoDup CapInv ExactlyOnce Emit
CHECK_DEADLOCK FALSE
