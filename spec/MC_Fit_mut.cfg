SPECIFICATION Spec
CONSTANTS
  Xs = {0, 1, 3}
  Hs = {0, 1, 3}
  Sds = {1, 3}
  H = 2
  C = 7
  Squared = FALSE
INVARIANTS Minimal
CHECK_DEADLOCK FALSE
