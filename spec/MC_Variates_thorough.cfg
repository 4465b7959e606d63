SPECIFICATION Spec
CONSTANTS
    Vals = {0, 1, 2, 3, 4, 5}
    MaxLen = 4
    ModeEverywhere = TRUE
INVARIANTS CellsSumToOne CumIsSumOfCells MeanOfCells ModeIsHighest SupportNonempty MeanInSupport RefusedOtherwise
PROPERTY ValidStays
CHECK_DEADLOCK FALSE
