SPECIFICATION LiveSpec
CONSTANTS
  Cap = 2
  Types = {"edkeygen", "ecsign"}
  MaxIds = 4
  MaxAcc = 6
  N = 0
INVARIANTS Sorted Fifo NoDup CapInv NoIdle ExactlyOnce
PROPERTY AllStart
CHECK_DEADLOCK FALSE
