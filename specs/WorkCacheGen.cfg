INIT Init
NEXT Next
CONSTANTS
  Size = 2
  Me = "me"
  Senders = {"a"}
  Keys = {"k1", "k2", "k3"}
  Adds = 0
  N = 6
INVARIANTS Bounded Recent Emit
CHECK_DEADLOCK FALSE
