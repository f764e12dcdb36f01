CONSTANTS
  Threads = 4
  Blocks = 4
  InPlace = FALSE
  Decrypt = TRUE
  Shared = FALSE
  EarlyHash = TRUE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
