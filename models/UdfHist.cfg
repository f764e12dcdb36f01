CONSTANTS
  Max = 4
  Classes = {1, 2, 4}
  Depth = 5
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
