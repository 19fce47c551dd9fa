SPECIFICATION Spec
CONSTANTS
  N = 24
  MaxStep = 11
  FirstStep = 7
  MinStep = 2
  Growth = 3
INVARIANTS Inside Truthful Limits First NeverPastBad Shrinks
PROPERTIES Forward Advance Frozen Ends NoHope
CHECK_DEADLOCK FALSE
