CONSTANTS
  B = 4
  Lens = {0, 1, 2, 3, 4, 5, 7, 8, 9}
  Depth = 7
  Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Buffer Right
CHECK_DEADLOCK FALSE
