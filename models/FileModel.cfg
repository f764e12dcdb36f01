CONSTANTS
  MaxBlocks = 4
  MaxMut = 3
  Check = TRUE
  Gen = FALSE
INIT Init
NEXT Next
INVARIANTS Authentic Readable NoTempLeft
CHECK_DEADLOCK FALSE
