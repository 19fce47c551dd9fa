CONSTANTS
  Depth = 2
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS DefaultOk Monotone
CHECK_DEADLOCK FALSE
