CONSTANTS
  MaxBlocks = 3
  MaxMut = 2
  Check = TRUE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
