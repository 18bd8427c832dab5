INIT Init
NEXT Next
CONSTANTS
  MaxN = 5000
  MaxSets = 9
INVARIANTS Ok Overlap
CHECK_DEADLOCK FALSE
