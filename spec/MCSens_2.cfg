CONSTANTS
  P = 2
  Ny = 2
  N = 1
SPECIFICATION Spec
INVARIANTS EndRight IntRight NoBadReturn OneFailure NoSolve Rows
CHECK_DEADLOCK FALSE
