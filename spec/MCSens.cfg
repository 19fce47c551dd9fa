CONSTANTS
  P = 3
  Ny = 1
  N = 2
SPECIFICATION Spec
INVARIANTS EndRight IntRight NoBadReturn OneFailure NoSolve Rows
CHECK_DEADLOCK FALSE
