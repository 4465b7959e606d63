SPECIFICATION GSpec
CONSTANTS
    Vals = {0, 1, 2, 3}
    MaxLen = 4
    ModeEverywhere = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
