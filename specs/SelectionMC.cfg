INIT Init
NEXT Next
CONSTANTS
  Members = {"b", "c", "d"}
  Threshold = 2
  Batch = 1
  Kinds = {"keygen", "ecsign", "edsign"}
  PresignSets <- Sets
INVARIANTS Composed Accepted Succeeds Learns Ended
CHECK_DEADLOCK FALSE
