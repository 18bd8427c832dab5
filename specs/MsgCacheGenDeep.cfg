INIT Init
NEXT Next
CONSTANTS
  Limit = 64
  Senders = {"a", "b", "c"}
  Works = {"w1", "w2", "w3"}
  Types = {"upd", "req", "out", "rsp"}
  Bulk = {1, 2, 30, 63, 64, 65, 130}
  Filters = {"all", "upd", "sel"}
  Adds = 0
  N = 14
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
