INIT Init
NEXT Next
CONSTANTS
  Size = 2
  Me = "me"
  Senders = {"a", "me"}
  Keys = {"k1", "k2", "k3"}
  Adds = 7
  N = 0
INVARIANTS Bounded Recent
CHECK_DEADLOCK FALSE
