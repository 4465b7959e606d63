SPECIFICATION GSpec
CONSTANTS
  MaxOps = 3
  UmbraGrow = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
