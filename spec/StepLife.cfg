SPECIFICATION Spec
CONSTANTS
  N = 9
  MaxStep = 5
  FirstStep = 4
  MinStep = 2
  Growth = 3
INVARIANTS Inside Truthful Limits First NeverPastBad Shrinks
PROPERTIES Forward Advance Frozen Ends NoHope
CHECK_DEADLOCK FALSE
