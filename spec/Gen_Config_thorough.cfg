SPECIFICATION GSpec
CONSTANTS
    Pairs = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
