SPECIFICATION Spec
INVARIANTS Passes Noticed
CHECK_DEADLOCK FALSE
