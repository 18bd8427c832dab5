CONSTANTS Writers = {"w1", "w2"}
  Lens = {0, 2}
  MaxMsgs = 3
  MaxKills = 1
SPECIFICATION Spec
INVARIANT Intact
INVARIANT Once
INVARIANT OnceEmpty
INVARIANT NotFailed
PROPERTY Arrive
CHECK_DEADLOCK FALSE
