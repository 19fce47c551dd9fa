CONSTANTS
  P = 7
  Us <- UsT
  Vs <- VsT
  Ss = {2}
  Cs <- CsQ
  Ys <- YsQ
SPECIFICATION Spec
INVARIANTS CorrectionRight SlopeRight ReducedRight StageRight Regular
CHECK_DEADLOCK FALSE
