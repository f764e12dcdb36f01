CONSTANTS
  Depth = 3
  Leak = FALSE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANT Released
CHECK_DEADLOCK FALSE
