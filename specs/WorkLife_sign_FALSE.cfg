SPECIFICATION Spec
CONSTANTS
  Nodes = {"a", "b", "c"}
  Leader = "a"
  T = 1
  Kind = "edsign"
  Faults = FALSE
INVARIANTS OneOutcome Legal Good Enough
PROPERTIES Ends
CHECK_DEADLOCK FALSE
