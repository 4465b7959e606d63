SPECIFICATION Spec
CONSTANTS
    N = 4
    MaxReal = 4
    Ws = {1, 2}
    Variant = "good"
CHECK_DEADLOCK FALSE
INVARIANT Emit
