INIT MInit
NEXT Next
CONSTANTS
  Size = 1
  Me = "a"
  Parties = {"b", "c"}
  Bad = "c"
  Strangers = {"s"}
  Rounds = {"R"}
  MaxSent = 2
INVARIANTS OnlyGenuine Addressees Bounded
CHECK_DEADLOCK FALSE
