CONSTANTS
  MaxLen = 5
  Alpha = 4
INIT Init
NEXT Next
INVARIANTS ChainsRight DecRight Back Guards InputKept
CHECK_DEADLOCK FALSE
