CONSTANTS
  Ctx = {1, 2}
  AadLens = {0, 1, 2, 3}
  DataLens = {0, 1, 2, 3, 5}
  Depth = 7
  MaxMsgs = 2
  Stale = FALSE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANTS TagRight NoReuse
CHECK_DEADLOCK FALSE
