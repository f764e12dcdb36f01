CONSTANTS
  Ctx = {1}
  AadLens = {0, 1, 2, 3}
  DataLens = {0, 1, 2, 3, 4, 5}
  Depth = 6
  MaxMsgs = 3
  Stale = FALSE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
