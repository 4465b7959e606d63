SPECIFICATION Spec
CONSTANTS
    MaxDev = 2
    Variant = "first only"
INVARIANTS NothingComputedBeforeRejection RejectedExactlyIfInvalid ArchiveOnlyAtEnd OneBadIsEnough BaseAccepted KindsDisjoint
CHECK_DEADLOCK FALSE
