SPECIFICATION Spec
CONSTANTS
  Sets = {s1, s2}
  Reqs = {r1, r2}
  Flips = 2
INVARIANTS TypeOK OwnReply OwnEntry StartedFirst Listens FailedSets GoodWins NoLeftOver
PROPERTIES OneKey CheckedReady Answered Ends
CHECK_DEADLOCK FALSE
