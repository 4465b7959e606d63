SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  UmbraGrow = TRUE
INVARIANTS Exact Geometry Probability
PROPERTIES Monotone AccOnlyGrows OnlyCommitAccumulates
CHECK_DEADLOCK FALSE
