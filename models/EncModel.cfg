CONSTANTS
  Firsts = {0}
  Seconds = {1, 6}
INIT EInit
NEXT ENext
INVARIANTS LawsOfXor CoordLaw ShapeLaw Sm4Law
CHECK_DEADLOCK FALSE
