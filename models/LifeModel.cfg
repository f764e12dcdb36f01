CONSTANTS
  Slots = {1, 2}
  Depth = 8
  NoTables = FALSE
  NoWipe = FALSE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANT Held
INVARIANT Wiped
CHECK_DEADLOCK FALSE
