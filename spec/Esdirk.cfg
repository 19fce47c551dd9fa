INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 3
  Emit = TRUE
INVARIANTS FactorizationOfLatest LinearExact EachFresh RefreshBeforeReduce OneRefreshPerStep NoTwoRetriesOfSameSize NoGrowthAfterFailure ShrinkAfterRejection NeverStaleAtRetry Emitted
CHECK_DEADLOCK FALSE
