SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxOps = 6
  MaxSteps = 2
  Emit = TRUE
INVARIANTS Independent FrozenSols Counter
PROPERTIES KeepSols
CHECK_DEADLOCK FALSE
