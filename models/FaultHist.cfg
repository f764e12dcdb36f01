CONSTANTS
  Calls = 6
  Threads = 1
  Sticky = TRUE
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
