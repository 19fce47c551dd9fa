CONSTANTS
  Reset = 20
  Period = 40
  Lots = 10
  MaxTry = 8
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
