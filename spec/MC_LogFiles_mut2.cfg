SPECIFICATION Spec
CONSTANTS
    P = {1, 2}
    MaxRun = 3
    MaxRec = 2
    MaxNow = 1
    Variant = "ends"
CONSTRAINT Small
INVARIANTS OwnRecords OneNameEach
PROPERTY OldFilesStay
CHECK_DEADLOCK FALSE
