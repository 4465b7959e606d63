SPECIFICATION Spec
CONSTANTS
    P = {1, 2}
    MaxRun = 4
    MaxRec = 3
    MaxNow = 1
    Variant = "good"
CONSTRAINT Small
INVARIANTS OwnRecords OneNameEach NothingAttachedAfterwards
PROPERTY OldFilesStay
CHECK_DEADLOCK FALSE
