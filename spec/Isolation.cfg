SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2}
  MaxOps = 8
  MaxSteps = 3
  Emit = TRUE
INVARIANTS Independent FrozenSols Counter
PROPERTIES KeepSols
CHECK_DEADLOCK FALSE
