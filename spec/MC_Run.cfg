SPECIFICATION Spec
CONSTANTS
    MaxRuns = 2
    MaxN = 2
    MaxP = 1
    Variant = "good"
INVARIANTS CompleteRealizations EveryCutIsReported EntriesMatch ArchivesComplete NothingBeforeValidation
PROPERTY ArchivesOnlyGrow
CHECK_DEADLOCK FALSE
