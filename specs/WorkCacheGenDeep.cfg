INIT Init
NEXT Next
CONSTANTS
  Size = 2
  Me = "me"
  Senders = {"a", "b", "me"}
  Keys = {"k1", "k2", "k3", "k4", "k5", "k6"}
  Adds = 0
  N = 60
INVARIANTS Bounded Recent Emit
CHECK_DEADLOCK FALSE
