SPECIFICATION Spec
CONSTANTS
    W = {1, 2}
    MaxRun = 3
    Pieces = 2
    MaxNow = 1
    MaxDamage = 1
    Variant = "early"
INVARIANTS EveryRunKept OneFileEach NobodyFails LoadedIsComplete
PROPERTY FilesStay
CHECK_DEADLOCK FALSE
