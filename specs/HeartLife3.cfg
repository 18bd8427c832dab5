SPECIFICATION Spec
CONSTANTS
  Sets = {s1, s2, s3}
  Reqs = {r1, r2}
  Flips = 3
INVARIANTS TypeOK OwnReply OwnEntry StartedFirst Listens FailedSets GoodWins NoLeftOver
PROPERTIES OneKey CheckedReady Answered Ends
CHECK_DEADLOCK FALSE
