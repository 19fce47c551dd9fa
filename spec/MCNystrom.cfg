SPECIFICATION Spec
INVARIANTS Decides Complete Sound Few FormFree
PROPERTY Ends
CHECK_DEADLOCK FALSE
