INIT Init
NEXT Next
CONSTANTS
  Vals = {"x", "y"}
  Types = {"1", "2"}
  Works = {"w", "w-1", "W", "o'k,%"}
  Sizes = {1, 2, 3, 12}
  Lists <- ListsGen
  Pk = {"k1", "k2", "k3"}
  MaxSteps = 0
  N = 22
INVARIANT Emit
CHECK_DEADLOCK FALSE
