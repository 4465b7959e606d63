SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  UmbraGrow = FALSE
INVARIANTS Exact Geometry Probability
PROPERTIES Monotone AccOnlyGrows OnlyCommitAccumulates
CHECK_DEADLOCK FALSE
