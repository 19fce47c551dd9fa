INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 6
  Emit = FALSE
INVARIANTS FactorizationOfLatest LinearExact EachFresh RefreshBeforeReduce OneRefreshPerStep NoTwoRetriesOfSameSize NoGrowthAfterFailure ShrinkAfterRejection NeverStaleAtRetry Emitted
CHECK_DEADLOCK FALSE
