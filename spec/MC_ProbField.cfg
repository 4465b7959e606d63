SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  UmbraGrow = TRUE
INVARIANTS Exact Geometry Probability
PROPERTIES Monotone AccOnlyGrows OnlyCommitAccumulates
CHECK_DEADLOCK FALSE
