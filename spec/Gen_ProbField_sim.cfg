SPECIFICATION GSpec
CONSTANTS
  MaxOps = 9
  UmbraGrow = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
