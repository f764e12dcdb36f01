CONSTANTS
  Threads = 4
  Blocks = 6
  InPlace = TRUE
  Decrypt = TRUE
  Shared = FALSE
  EarlyHash = TRUE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
