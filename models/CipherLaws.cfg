CONSTANTS
  KeyLens = {0, 1, 5, 15, 16, 17, 32}
  Blocks = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  Depth = 0
INIT LInit
NEXT LNext
INVARIANTS BothWays TablesInverse WhiteBoxIsPlain KeyNorm
