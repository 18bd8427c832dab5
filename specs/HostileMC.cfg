SPECIFICATION Spec
CONSTANTS
  Works = {"w1", "w2"}
  Senders = {"b", "c"}
  Cap = 1
  MaxMsgs = 2
INVARIANTS Bounded OnlyHit
PROPERTIES EndedForGood Handled AllEnd Unharmed
CHECK_DEADLOCK FALSE
