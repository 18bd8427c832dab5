SPECIFICATION Spec
CONSTANTS
  Nodes = {"a", "b", "c"}
  Kind = "edsign"
INVARIANTS Precise NoStall
PROPERTIES AllDone
CHECK_DEADLOCK FALSE
