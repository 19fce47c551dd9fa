INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 6
  Fam = "rk"
  Q1 = 5
  K1 = 70
  K2n = 40
  Aln = 0
  HasPre = FALSE
  Emit = FALSE
INVARIANTS FactorLimits ReducedLimit NoGrowthAfterRejection RejectionShrinks WithinMax NonEmpty Emitted
PROPERTY MonotoneReduced
CHECK_DEADLOCK FALSE
