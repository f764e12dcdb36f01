CONSTANTS
  Radices = {2}
  Lens = {2, 3, 4}
  Tweaks = {0, 8}
  Keys = {1}
INIT FInit
NEXT FNext
INVARIANTS Format Undo Redo SameTag
CHECK_DEADLOCK FALSE
