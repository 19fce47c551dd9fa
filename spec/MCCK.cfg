INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 2
  Emit = TRUE
  Wide = FALSE
INVARIANTS Emitted QuitBounds TwiddleBounds RetryShrinks Bounded NoGrowthAfterRejection FallbackFromFull 
PROPERTIES OnlyCompleted TwiddleMonotone
CHECK_DEADLOCK FALSE
