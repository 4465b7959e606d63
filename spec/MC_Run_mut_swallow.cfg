SPECIFICATION Spec
CONSTANTS
    MaxRuns = 2
    MaxN = 2
    MaxP = 2
    Variant = "swallow"
INVARIANTS CompleteRealizations EveryCutIsReported EntriesMatch ArchivesComplete NothingBeforeValidation
PROPERTY ArchivesOnlyGrow
CHECK_DEADLOCK FALSE
