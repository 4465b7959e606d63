SPECIFICATION Spec
CONSTANTS
    MaxDev = 2
    Variant = "good"
INVARIANTS NothingComputedBeforeRejection RejectedExactlyIfInvalid ArchiveOnlyAtEnd OneBadIsEnough BaseAccepted KindsDisjoint
CHECK_DEADLOCK FALSE
