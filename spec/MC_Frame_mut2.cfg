SPECIFICATION Spec
CONSTANTS
    MaxOps = 4
    Variant = "works on it"
INVARIANT FrameHolds
CHECK_DEADLOCK FALSE
