CONSTANTS
  Spool = "anon"
  Early = FALSE
  Refuse = TRUE
  Depth = 5
  Gen = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
