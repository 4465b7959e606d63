SPECIFICATION Spec
CONSTANTS
    MaxOps = 8
    Variant = "good"
INVARIANT FrameHolds
CHECK_DEADLOCK FALSE
