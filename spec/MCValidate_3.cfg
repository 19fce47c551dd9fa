CONSTANTS
  Depth = 3
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS DefaultOk Monotone
CHECK_DEADLOCK FALSE
