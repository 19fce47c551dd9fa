CONSTANTS
  P = 5
  Us <- UsQ
  Vs <- VsQ
  Ss = {1, 3}
  Cs <- CsQ
  Ys <- YsQ
SPECIFICATION Spec
INVARIANTS CorrectionRight SlopeRight ReducedRight StageRight Regular
CHECK_DEADLOCK FALSE
