INIT Init
NEXT Next
CONSTANTS
  N = 9
  Kinds = {"edkeygen", "eckeygen", "edsign", "ecsign", "presign"}
  Sizes = {2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
