INIT Init
NEXT Next
CONSTANTS
  Works = {"w", "w:1", "v"}
  Rounds = {1, 2, 11, 12}
  Parties = {"a", "b", "c", "d"}
  PartySets = {{"a"}, {"a", "b"}, {"b", "c", "d"}, {"a", "b", "c", "d"}, {}}
  N = 18
  Log_ = TRUE
INVARIANTS Independent Emit
CHECK_DEADLOCK FALSE
