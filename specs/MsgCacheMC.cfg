INIT Init
NEXT Next
CONSTANTS
  Limit = 2
  Senders = {"a", "b"}
  Works = {"w1", "w2"}
  Types = {"upd", "out"}
  Bulk = {1}
  Filters = {"all", "upd", "sel"}
  Adds = 5
  N = 0
INVARIANTS Bounded Conserved
CHECK_DEADLOCK FALSE
