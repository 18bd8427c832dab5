INIT PInit
NEXT Next
CONSTANTS
  Ids = {1, 2, 3}
  Procs = {"p", "q", "r"}
INVARIANTS AtMostOnce MarkedFirst NeverStuck
CHECK_DEADLOCK FALSE
