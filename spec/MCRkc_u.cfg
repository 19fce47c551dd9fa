INIT Init
NEXT Next
CONSTANTS
  Const = FALSE
  User = TRUE
  Max = 20
VIEW View
INVARIANTS AgeBound ConstOnce FreshAfterRejection NeverTwiceAtPoint UserEachStep MlCount
CHECK_DEADLOCK FALSE
