SPECIFICATION Spec
CONSTANTS
    MaxDev = 1
    Variant = "count late"
INVARIANTS NothingComputedBeforeRejection RejectedExactlyIfInvalid ArchiveOnlyAtEnd OneBadIsEnough BaseAccepted KindsDisjoint
CHECK_DEADLOCK FALSE
