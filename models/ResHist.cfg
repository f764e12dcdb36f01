CONSTANTS
  Depth = 2
  Leak = FALSE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
