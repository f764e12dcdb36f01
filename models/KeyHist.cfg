CONSTANTS
  Ctx = {1, 2}
  Store = {1}
  Sizes = {2}
  Depth = 7
  InPlace = FALSE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
