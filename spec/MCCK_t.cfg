INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 4
  Emit = FALSE
  Wide = TRUE
INVARIANTS  QuitBounds TwiddleBounds RetryShrinks Bounded NoGrowthAfterRejection FallbackFromFull Total
PROPERTIES OnlyCompleted TwiddleMonotone
VIEW NoHist
CHECK_DEADLOCK FALSE
