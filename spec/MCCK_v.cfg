INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 3
  Emit = FALSE
  Wide = FALSE
INVARIANTS  QuitBounds TwiddleBounds RetryShrinks Bounded NoGrowthAfterRejection FallbackFromFull Total
PROPERTIES OnlyCompleted TwiddleMonotone
VIEW NoHist
CHECK_DEADLOCK FALSE
