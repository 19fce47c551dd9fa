INIT Init
NEXT Next
CONSTANTS
  MaxAtt = 5
  Fam = "esdirk"
  Q1 = 4
  K1 = 200
  K2n = 100
  Aln = 100
  HasPre = FALSE
  Emit = FALSE
INVARIANTS FactorLimits ReducedLimit NoGrowthAfterRejection RejectionShrinks WithinMax NonEmpty Emitted
PROPERTY MonotoneReduced
CHECK_DEADLOCK FALSE
