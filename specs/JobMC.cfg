SPECIFICATION Spec
CONSTANTS
  Msgs <- M3
INVARIANTS HandedAll OnlyTimeout OnlyOk
PROPERTIES Ends Once
CHECK_DEADLOCK FALSE
