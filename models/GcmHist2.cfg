CONSTANTS
  Ctx = {1, 2}
  AadLens = {1, 2}
  DataLens = {2, 3}
  Depth = 7
  MaxMsgs = 2
  Stale = FALSE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
