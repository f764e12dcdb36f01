CONSTANTS
  Slots = {1, 2}
  Depth = 9
  NoTables = FALSE
  NoWipe = FALSE
  Gen = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Emit
