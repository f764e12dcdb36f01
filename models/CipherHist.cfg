CONSTANTS
  KeyLens = {0}
  Blocks = {0}
  Depth = 6
INIT HInit
NEXT HNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
