SPECIFICATION Spec
CONSTANTS
  Copy = FALSE
  Ms = {1, 2}
  Es = {1, 2}
  MaxOps = 4

PROPERTIES OnlyThroughItself DefaultIsZero
CHECK_DEADLOCK FALSE
