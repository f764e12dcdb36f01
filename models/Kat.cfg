CHECK_DEADLOCK FALSE
INIT KInit
NEXT KNext
INVARIANT Vectors
