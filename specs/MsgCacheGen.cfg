INIT Init
NEXT Next
CONSTANTS
  Limit = 64
  Senders = {"a", "b"}
  Works = {"w1", "w2"}
  Types = {"upd"}
  Bulk = {1, 64}
  Filters = {"all"}
  Adds = 0
  N = 4
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
