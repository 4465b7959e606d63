SPECIFICATION Spec
CONSTANTS
    MaxDev = 1
    Variant = "good"
INVARIANTS NothingComputedBeforeRejection RejectedExactlyIfInvalid ArchiveOnlyAtEnd OneBadIsEnough BaseAccepted KindsDisjoint
PROPERTY Ends
CHECK_DEADLOCK FALSE
