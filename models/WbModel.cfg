CONSTANTS
  Rounds = 2
  MaxDummy = 1
  Break = FALSE
INIT Init
NEXT Next
INVARIANT Transparent
CHECK_DEADLOCK FALSE
