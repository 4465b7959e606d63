SPECIFICATION Spec
CONSTANTS
  Copy = TRUE
  Ms = {1, 2, 3}
  Es = {1, 2}
  MaxOps = 5
INVARIANTS NoSharing NoOutsideSharing
PROPERTIES OnlyThroughItself DefaultIsZero
CHECK_DEADLOCK FALSE
