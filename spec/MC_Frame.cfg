SPECIFICATION Spec
CONSTANTS
    MaxOps = 4
    Variant = "good"
INVARIANT FrameHolds
CHECK_DEADLOCK FALSE
