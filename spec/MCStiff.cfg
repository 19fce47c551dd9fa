CONSTANTS
  Reset = 3
  Period = 4
  Lots = 2
  MaxTry = 2
  Ms = {0, 1, 2, 3, 5}
  MaxStep = 7
  MaxRej = 2
SPECIFICATION Spec
INVARIANTS Off Bounded Regular LotsTrue LotsSeen OscOnlyLots Counted
CHECK_DEADLOCK FALSE
