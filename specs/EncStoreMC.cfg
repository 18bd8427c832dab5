INIT Init
NEXT Next
CONSTANTS
  Valid = {"s1", "s2", "s3"}
  Keys = {"a", "b", "c"}
  Vals = {"v1", "v2"}
  Secrets = {"s1", "s2", "s4"}
  Hows = {"flip"}
  N = 0
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
