SPECIFICATION Spec
CONSTANTS
    MaxOps = 4
    Variant = "keeps"
INVARIANT FrameHolds
CHECK_DEADLOCK FALSE
