SPECIFICATION Spec
CONSTANTS
    MaxRuns = 1
    MaxN = 3
    MaxP = 3
    Variant = "good"
INVARIANTS CompleteRealizations EveryCutIsReported EntriesMatch ArchivesComplete NothingBeforeValidation
PROPERTY ArchivesOnlyGrow
CHECK_DEADLOCK FALSE
