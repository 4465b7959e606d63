SPECIFICATION Spec
CONSTANTS
    NR = 3
    NC = 4
    Vals = {1, 8}
    MaxSet = 2
    Sds = {1, 2, 4}
    Variant = "reflect"
INVARIANTS Bounded NothingGained EdgeLoses SameBothWays Mirrored NoSmoothing
CHECK_DEADLOCK FALSE
