SPECIFICATION Spec
CONSTANTS
  Copy = TRUE
  Ms = {1, 2}
  Es = {1, 2}
  MaxOps = 4
INVARIANTS NoSharing NoOutsideSharing
PROPERTIES OnlyThroughItself DefaultIsZero
CHECK_DEADLOCK FALSE
