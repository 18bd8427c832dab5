INIT Init
NEXT Next
CONSTANTS
  Valid = {"s1", "s2", "s3"}
  Keys = {"a", "b", "ab"}
  Vals = {"empty", "one", "short", "block", "long", "n1", "n2"}
  Secrets = {"s1", "s2", "s3", "s4"}
  Hows = {"flip", "cut", "cut1", "nonce", "none", "longer"}
  N = 16
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
