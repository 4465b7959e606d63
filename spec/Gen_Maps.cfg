SPECIFICATION Spec
CONSTANTS
    NR = 3
    NC = 4
    Vals = {1, 8}
    MaxSet = 2
    Sds = {1, 2, 4}
    Variant = "good"
INVARIANT Emit
CHECK_DEADLOCK FALSE
