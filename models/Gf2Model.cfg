CONSTANTS
  Lasts = {6}
  Primes = {7, 11, 19, 23, 31, 43, 47, 59, 67, 71, 79, 83, 103, 107, 127, 131, 139, 151, 163, 167, 179, 191, 199, 211, 223, 227, 239, 251}
  Depth = 0
INIT LInit
NEXT LNext
INVARIANTS LawsOf4 LawsOfBig LawsOfQpr LawsOfQpr32
CHECK_DEADLOCK FALSE
