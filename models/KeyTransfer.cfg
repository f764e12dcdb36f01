CONSTANTS
  Ctx = {1, 2}
  Store = {1, 2}
  Sizes = {2, 3}
  Depth = 6
  InPlace = FALSE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANT Faithful
CHECK_DEADLOCK FALSE
