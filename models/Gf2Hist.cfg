CONSTANTS
  Lasts = {0}
  Primes = {7}
  Depth = 8
INIT HInit
NEXT HNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
