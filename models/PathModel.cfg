CONSTANTS
  Spool = "anon"
  Early = FALSE
  Refuse = TRUE
  Depth = 3
  Gen = FALSE
INIT Init
NEXT Next
INVARIANTS OthersKept Sealed Opened Nothing Kept
CHECK_DEADLOCK FALSE
