CONSTANTS
  B = 4
  Lens = {0, 1, 2, 3, 4, 5, 8}
  Depth = 6
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
