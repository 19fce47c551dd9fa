SPECIFICATION Spec
INVARIANTS Bounded Positive Shrinks Longer Scaled AttemptOK Lipschitz
CHECK_DEADLOCK FALSE
