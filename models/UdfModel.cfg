CONSTANTS
  Max = 4
  Classes = {1, 2, 4}
  Depth = 6
  Gen = FALSE
INIT Init
NEXT Next
INVARIANTS InBuffer ResultIsRow
CHECK_DEADLOCK FALSE
