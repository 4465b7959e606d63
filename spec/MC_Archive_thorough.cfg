SPECIFICATION Spec
CONSTANTS
    W = {1, 2, 3}
    MaxRun = 4
    Pieces = 2
    MaxNow = 1
    MaxDamage = 1
    Variant = "good"
INVARIANTS EveryRunKept OneFileEach NobodyFails LoadedIsComplete
PROPERTY FilesStay
CHECK_DEADLOCK FALSE
