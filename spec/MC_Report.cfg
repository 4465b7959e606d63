SPECIFICATION Spec
CONSTANTS
    N = 4
    MaxReal = 4
    Ws = {1, 2}
    Variant = "good"
INVARIANTS Refuse AreaIsCaptured TableHasEverything RowsFirst RowsMonotone ZoneIsTable
PROPERTY NeverLess
CHECK_DEADLOCK FALSE
