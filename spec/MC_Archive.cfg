SPECIFICATION Fair
CONSTANTS
    W = {1, 2}
    MaxRun = 3
    Pieces = 2
    MaxNow = 1
    MaxDamage = 1
    Variant = "good"
INVARIANTS EveryRunKept OneFileEach NobodyFails LoadedIsComplete
PROPERTIES FilesStay GetsThere
CHECK_DEADLOCK FALSE
