SPECIFICATION Spec
CONSTANTS
    Vals = {0, 1, 4}
    MaxRows = 3
    Variant = "good"
INVARIANT Emit
CHECK_DEADLOCK FALSE
