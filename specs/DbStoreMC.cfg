INIT Init
NEXT Next
CONSTANTS
  Vals = {"x"}
  Types = {"1"}
  Works = {"w", "w-1"}
  Sizes = {1, 2}
  Lists <- ListsSmall
  Pk = {"k1"}
  MaxSteps = 5
  N = 0
INVARIANTS MarkedStays OneKey
CHECK_DEADLOCK FALSE
