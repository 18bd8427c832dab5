INIT Init
NEXT Next
CONSTANTS
  Works = {"w", "w:1"}
  Rounds = {1, 2}
  Parties = {"a", "b"}
  PartySets = {{"a"}, {"a", "b"}}
  N = 0
  Log_ = FALSE
INVARIANTS Independent Silent_
CHECK_DEADLOCK FALSE
