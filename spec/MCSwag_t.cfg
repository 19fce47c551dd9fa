INIT Init
NEXT Next
CONSTANTS
  KMax = 12
  Rich = TRUE
INVARIANTS OrderBounds OrderChange FailLowers ThirdResets FailHalves AcceptFactor Phase1 RaiseNeedsEqualSteps NsCap Equal TotalD
PROPERTIES Phase1Ends
CHECK_DEADLOCK FALSE
