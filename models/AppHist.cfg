CONSTANTS
  Lens = {11}
  Gen = TRUE
INIT GInit
NEXT ANext
INVARIANT Emit
CHECK_DEADLOCK FALSE
