SPECIFICATION Spec
CONSTANTS
  Xs = {0, 1, 3}
  Hs = {0, 1, 2, 3}
  Sds = {1, 3}
  H = 2
  C = 12
  Squared = TRUE
INVARIANTS Minimal ExactDataReproduced RefusedUnchanged NormalPositive
CHECK_DEADLOCK FALSE
