SPECIFICATION GSpec
CONSTANTS
  Copy = TRUE
  Ms = {1, 2}
  Es = {1}
  MaxOps = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
