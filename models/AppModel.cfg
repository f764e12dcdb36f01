CONSTANTS
  Lens = {1, 2, 3, 4}
  Gen = FALSE
INIT AInit
NEXT ANext
INVARIANTS Refuses KeptSame SameShape Back
CHECK_DEADLOCK FALSE
