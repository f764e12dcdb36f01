CONSTANTS
  Calls = 3
  Threads = 3
  Sticky = TRUE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANT Reported
CHECK_DEADLOCK FALSE
