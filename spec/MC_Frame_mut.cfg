SPECIFICATION Spec
CONSTANTS
    MaxOps = 4
    Variant = "hands out"
INVARIANT FrameHolds
CHECK_DEADLOCK FALSE
