SPECIFICATION GSpec
CONSTANTS
  Copy = TRUE
  Ms = {1, 2, 3}
  Es = {1, 2}
  MaxOps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
