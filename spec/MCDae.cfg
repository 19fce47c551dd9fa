SPECIFICATION Spec
INVARIANTS RightVerdict RightWarning OnlyAlgebraic MovedOnlyIfOff NeverRunsInconsistent UnitsDoNotMatter
PROPERTY Ends
CHECK_DEADLOCK FALSE
