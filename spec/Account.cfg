INIT MCInit
NEXT MCNext
CONSTANTS MaxEv = 7
INVARIANTS Truthful ByCount
CHECK_DEADLOCK FALSE
