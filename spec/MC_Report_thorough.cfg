SPECIFICATION Spec
CONSTANTS
    N = 5
    MaxReal = 5
    Ws = {1, 2}
    Variant = "good"
INVARIANTS Refuse AreaIsCaptured TableHasEverything RowsFirst RowsMonotone ZoneIsTable
PROPERTY NeverLess
CHECK_DEADLOCK FALSE
