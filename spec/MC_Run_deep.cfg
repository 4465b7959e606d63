SPECIFICATION Spec
CONSTANTS
    MaxRuns = 1
    MaxN = 2
    MaxP = 2
    Variant = "good"
INVARIANTS CompleteRealizations EveryCutIsReported EntriesMatch ArchivesComplete NothingBeforeValidation
PROPERTY ArchivesOnlyGrow
CHECK_DEADLOCK FALSE
