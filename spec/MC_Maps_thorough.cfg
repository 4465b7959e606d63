SPECIFICATION Spec
CONSTANTS
    NR = 4
    NC = 5
    Vals = {1, 8}
    MaxSet = 3
    Sds = {1, 2, 4}
    Variant = "good"
INVARIANTS Bounded NothingGained EdgeLoses SameBothWays Mirrored NoSmoothing
CHECK_DEADLOCK FALSE
