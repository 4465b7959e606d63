SPECIFICATION Spec
CONSTANTS
    Spacing = 2
    Far = 7
    MaxT = 3
    MaxU = 3
    MaxSteps = 2
    Variant = "box"
INVARIANTS Follows Undone
CHECK_DEADLOCK FALSE
