SPECIFICATION Spec
CONSTANTS
    Spacing = 2
    Far = 7
    MaxT = 2
    MaxU = 3
    MaxSteps = 2
    Variant = "good"
    What = "mean"
INVARIANTS Bracketed CertainIsTheZone Whole
CHECK_DEADLOCK FALSE
