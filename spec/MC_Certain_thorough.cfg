SPECIFICATION Spec
CONSTANTS
    Spacing = 2
    Far = 7
    MaxT = 3
    MaxU = 3
    MaxSteps = 4
    Variant = "good"
    What = "good"
INVARIANTS Bracketed CertainIsTheZone Whole
CHECK_DEADLOCK FALSE
