SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Copy = TRUE
 Replace = FALSE
INVARIANTS Ends Joined Frozen Pure
CHECK_DEADLOCK FALSE
