SPECIFICATION Spec
CONSTANTS
    Vals = {0, 1, 2, 3}
    MaxLen = 4
    ModeEverywhere = FALSE
INVARIANTS CellsSumToOne CumIsSumOfCells MeanOfCells ModeIsHighest SupportNonempty MeanInSupport RefusedOtherwise
PROPERTY ValidStays
CHECK_DEADLOCK FALSE
